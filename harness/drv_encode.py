"encode_strings and the exported tables of characters"
import collections, itertools
from drvlib import cps
import big.all as B
import big.deprecated as D
import big.text as T
class L(list): pass
class Tu(tuple): pass
class Di(dict): pass
class Se(set): pass
class St(str): pass
class By(bytes): pass
OD = collections.OrderedDict
def node(o):
    c = type(o).__name__
    if isinstance(o, str): return ["str", c, cps(o)]
    if isinstance(o, bytes): return ["bytes", c, list(o)]
    if isinstance(o, dict): return ["dict", c, [[node(k), node(v)] for k, v in o.items()]]
    if isinstance(o, list): return ["list", c, [node(x) for x in o]]
    if isinstance(o, tuple): return ["tuple", c, [node(x) for x in o]]
    if isinstance(o, set): return ["set", c, sorted((node(x) for x in o), key=repr)]
    return ["other", c, []]
def containers(o):
    "the identities of the mutable containers inside o"
    if isinstance(o, (list, dict, set)): yield id(o)
    if isinstance(o, dict):
        for k, v in o.items(): yield from containers(k); yield from containers(v)
    elif isinstance(o, (list, tuple, set)):
        for x in o: yield from containers(x)
def one(ctx, o, enc):
    rng = ctx.rng
    n = node(o)
    rec = {"fn": "encode", "enc": enc, "node": n, "after": n, "shared": 0}
    def fn():
        r = T.encode_strings(o) if enc == "ascii" and rng.random() < 0.5 else B.encode_strings(o, encoding=enc) if rng.random() < 0.5 else T.encode_strings(o, enc)
        rec["after"] = node(o)
        rec["shared"] = int(bool(set(containers(o)) & set(containers(r))))
        return r
    ctx.case(rec, fn, lambda v: ("node", node(v)))
def tables(ctx):
    if ctx.shard: return
    C = [chr(i) for i in range(0x110000)]
    ctx.emit({"fn": "python", "space": [ord(c) for c in C if c.isspace()], "bspace": [i for i in range(256) if bytes([i]).isspace()],
              "nl": [ord(c) for c in C if len(("a" + c + "x").splitlines()) > 1], "bnl": [i for i in range(256) if len((b"a" + bytes([i]) + b"x").splitlines()) > 1]})
    names = ["%s_%s%s" % (a, b, c) for a in ("str", "unicode", "ascii", "bytes") for b in ("whitespace", "linebreaks") for c in ("", "_without_crlf")]
    names += ["whitespace", "whitespace_without_crlf", "linebreaks", "linebreaks_without_crlf"]
    old = ["whitespace_without_dos", "newlines", "newlines_without_dos", "ascii_whitespace_without_dos", "ascii_newlines", "ascii_newlines_without_dos",
           "utf8_whitespace", "utf8_whitespace_without_dos", "utf8_newlines", "utf8_newlines_without_dos"]
    for mods, ns in (((T, B), names), ((D,), old)):
        for n in ns:
            for m in mods:
                t = "bytes" if n.startswith("bytes") or n.startswith("utf8") or (m is D and n.startswith("ascii")) else "str"
                ctx.case({"fn": "table", "name": n, "type": "tuple<%s>" % t}, lambda: getattr(m, n),
                         lambda v: ("%s<%s>" % (type(v).__name__, ",".join(sorted({type(x).__name__ for x in v}))), [cps(x) for x in v]))
def run(ctx):
    rng = ctx.rng
    tables(ctx)
    small = ["", "a", "\xe9", b"", b"\xff", 3]
    for enc in ("ascii", "latin-1", "utf-8", "utf-16-le"):
        for o in small:
            if ctx.mine(): one(ctx, o, enc)
        for k in range(3):
            for t in itertools.product(small, repeat=k):
                for mk in (list, tuple, set, L, Tu, Se, lambda t: dict(zip(("k", "l"), t)), lambda t: OD(zip(t, ("v", "w"))), lambda t: Di(zip(t, t)), lambda t: [tuple(t), list(t)], lambda t: {"x": {"y": list(t)}}, lambda t: {tuple(t): set(t)}):
                    if ctx.mine(): one(ctx, mk(t), enc)
    CH = ["a", "b", "Z", "\x00", "\x7f", "\x80", "\xe9", "\xff", "\u0100", "\u07ff", "\u0800", "\u20ac", "\ud7ff", "\ue000", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff"]
    def leaf(al):
        r = rng.random()
        if r < 0.75:
            s = "".join(rng.choice(al) for _ in range(rng.randrange(0, 6)))
            return St(s) if r < 0.06 else s
        if r < 0.98:
            v = bytes(rng.choice([0, 65, 97, 128, 255]) for _ in range(rng.randrange(4)))
            return By(v) if r < 0.8 else v
        return rng.choice([3, None, 1.5, frozenset(), bytearray(b"a"), object, True, range(2), "\ud800", "a\udc80", "\udcff"])
    def key(al, d):
        r = rng.random()
        return leaf(al) if d <= 0 or r < 0.7 else rng.choice([tuple, tuple, Tu])([key(al, d - 1) for _ in range(rng.randrange(3))])
    def tree(al, d):
        r = rng.random()
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        if d <= 0 or r < 0.2: return leaf(al)
        if r < 0.4: return rng.choice([list, list, L])([tree(al, d - 1) for _ in range(n)])
        if r < 0.6: return rng.choice([tuple, tuple, Tu])([tree(al, d - 1) for _ in range(n)])
        if r < 0.75: return rng.choice([set, set, Se])([key(al, d - 1) for _ in range(n)])
        return rng.choice([dict, dict, OD, Di])([(key(al, d - 1), tree(al, d - 1)) for _ in range(n)])
    for i in range(500 if not ctx.thorough else 8000):
        enc = rng.choice(["ascii", "latin-1", "utf-8", "utf-16-le"])
        al = CH[:5] if enc == "ascii" else CH[:8] if enc == "latin-1" else CH
        if rng.random() < 0.1: al = CH
        try: o = tree(al, rng.choice([1, 2, 3, 4]))
        except TypeError: continue    # an unhashable key
        one(ctx, o, enc)
    # deep, wide, and with parts in common
    for i in range(30 if not ctx.thorough else 300):
        enc = rng.choice(["ascii", "latin-1", "utf-8", "utf-16-le"])
        al = CH[:5] if enc == "ascii" else CH[:8] if enc == "latin-1" else CH
        r = rng.random()
        if r < 0.4:
            o = leaf(al)
            for _ in range(rng.choice([8, 20, 60])):
                k = rng.randrange(4)
                o = [o] if k == 0 else (o,) if k == 1 else {rng.choice("abc"): o} if k == 2 else [leaf(al[:1]), o]
        elif r < 0.7:
            o = rng.choice([list, tuple])([leaf(al) for _ in range(rng.choice([20, 150, 400]))])
            if rng.random() < 0.5: o = dict(enumerate(o))
        else:
            s = leaf(al); p = [s, s]; q = (s, tuple(p))
            o = {"p": p, "q": [p, q, {"p": p, q: q} if not isinstance(s, bytearray) else p], "s": s}
            if rng.random() < 0.5: o = [o, o, [o]]
        one(ctx, o, enc)
