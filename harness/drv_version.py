"Version: recorded constructions, comparisons and sorts."
import itertools
from textgen import *
from big.version import Version
def digs(n): return [] if n is None else [ord(c) for c in str(n)]
def S(s): return {"how": "s", "s": cps(s), "epoch": [], "release": [], "level": "", "serial": [], "post": [], "dev": [], "local": [], "haslocal": 0, "_": lambda: Version(s)}
def K(release, **kw):
    d = {"how": "k", "s": [], "epoch": digs(kw.get("epoch")), "release": [digs(n) for n in release], "level": kw.get("release_level") or "none",
         "serial": digs(kw.get("serial")), "post": digs(kw.get("post")), "dev": digs(kw.get("dev")), "local": [cps(x) for x in kw.get("local") or ()], "haslocal": int(kw.get("local") is not None)}
    d["_"] = lambda: Version(release=tuple(release), **kw)
    return d
def strip(d): return {k: v for k, v in d.items() if k != "_"}
def one(ctx, d):
    def enc(v):
        t = str(v); w = Version(t)
        r = eval(repr(v), {"Version": Version})
        def num(n):
            if n is None: return []
            assert type(n) is int, n
            return digs(n)
        return "version", {"str": cps(t), "release": [num(n) for n in v.release], "level": v.release_level, "level2": v.releaselevel, "epoch": num(v.epoch), "serial": num(v.serial),
                           "post": num(v.post), "dev": num(v.dev), "local": [cps(x) for x in v.local or ()], "major": num(v.major), "minor": num(v.minor), "micro": num(v.micro),
                           "again": int(w == v and v == w and not w < v and not v < w and str(w) == t), "hash1": int(hash(w) == hash(v)), "rep": int(type(r) is Version and r == v)}
    ctx.case({"fn": "one", "a": strip(d)}, d["_"], enc=enc)
def pair(ctx, a, b):
    def f():
        x, y = a["_"](), b["_"]()
        return {"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "hash": hash(x) == hash(y)}
    def enc(d):
        assert all(type(v) is bool for v in d.values()), d
        return "pair", {k: int(v) for k, v in d.items()}
    ctx.case({"fn": "pair", "a": strip(a), "b": strip(b)}, f, enc=enc)
def sort(ctx, many):
    def f():
        vs = [m["_"]() for m in many]
        ids = {id(v): i + 1 for i, v in enumerate(vs)}
        return [ids[id(v)] for v in sorted(vs)]
    ctx.case({"fn": "sort", "a": strip(many[0]), "many": [strip(m) for m in many]}, f, enc=lambda q: ("order", q))
def rcase(rng, s): return "".join(rng.choice([c, c, c, c.upper()]) for c in s)
def rnum(rng): return rng.choice([0, 0, 1, 1, 2, 3, 9, 10, 11, 99, 100, 20261120, 2**31, 2**64, 10**25])
def rdig(rng): return rng.choice(["", "", "", "0", "00"]) + str(rnum(rng))
def rlocal(rng): return rng.choice(["a", "b", "ab", "abc", "1", "2", "10", "01", "001", "0", "1a", "a1", "z9", "dev", "rc1", "x0x", "1234567890", "20261120123456", "0009999999999", "9a9", "a" * 12, "123456789012345678901"])
def rver(rng):
    "a random valid version string"
    s = rng.choice(["", "", "", "", " ", "\t", "\n", "  "]) + rng.choice(["", "", "", "v"])
    if rng.random() < 0.2: s += rdig(rng) + "!"
    s += ".".join(rdig(rng) if rng.random() < 0.8 else "0" for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 9])))
    if rng.random() < 0.5: s += rng.choice(["", "", ".", "-", "_"]) + rng.choice(["a", "b", "c", "rc", "alpha", "beta", "pre", "preview"]) + rng.choice(["", "", ".", "-", "_"]) + rng.choice([rdig(rng), rdig(rng), ""])
    if rng.random() < 0.35:
        s += "-" + rdig(rng) if rng.random() < 0.3 else rng.choice(["", ".", ".", "-", "_"]) + rng.choice(["post", "post", "rev", "r"]) + rng.choice(["", "", ".", "-", "_"]) + rng.choice([rdig(rng), rdig(rng), ""])
    if rng.random() < 0.35: s += rng.choice(["", ".", ".", "-", "_"]) + "dev" + rng.choice(["", "", ".", "-", "_"]) + rng.choice([rdig(rng), rdig(rng), ""])
    if rng.random() < 0.3: s += "+" + "".join(rlocal(rng) + rng.choice([".", ".", "-", "_"]) for _ in range(rng.choice([0, 0, 1, 2, 5]))) + rlocal(rng)
    return rcase(rng, s + rng.choice(["", "", "", "", " ", "\n", "\t "]))
def mutate(rng, s):
    i = rng.randrange(len(s) + 1)
    r = rng.random()
    if r < 0.4 and s: return s[:i] + s[i + 1:]
    if r < 0.8: return s[:i] + rng.choice("0123.-_!+abcrdevpostlhx v\n~*^/,:\xe9\u212a\u017f\u0130\u0131\u0663\uff11\u2003\x1f") + s[i:]
    j = rng.randrange(len(s) + 1)
    return s[:min(i, j)] + s[max(i, j):]
def rkw(rng):
    kw = {}
    if rng.random() < 0.4: kw["epoch"] = rng.choice([None, 0, rnum(rng)])
    if rng.random() < 0.7: kw["release_level"] = rng.choice(["alpha", "beta", "rc", "final", None, "a", "b"])
    if rng.random() < 0.5 and kw.get("release_level") not in (None, "final"): kw["serial"] = rng.choice([None, rnum(rng)])
    elif rng.random() < 0.3: kw["serial"] = rng.choice([None, 0])
    if rng.random() < 0.4: kw["post"] = rng.choice([None, rnum(rng)])
    if rng.random() < 0.4: kw["dev"] = rng.choice([None, rnum(rng)])
    if rng.random() < 0.4: kw["local"] = rng.choice([None] + [tuple(rcase(rng, rlocal(rng)) for _ in range(rng.choice([1, 1, 2, 3, 6])))] * 3)
    return K([rnum(rng) for _ in range(rng.choice([1, 1, 2, 3, 4, 9]))], **kw)
def badkw(rng):
    r = rng.randrange(8)
    if r == 6: return K([rng.choice([0, 1, 7]) for _ in range(rng.randrange(3))] + [-rng.choice([1, 2, 10**20])] + [0] * rng.randrange(2))
    if r == 7: return K([1, 2], **rng.choice([dict(epoch=-1), dict(release_level="rc", serial=-1), dict(post=-1), dict(dev=-3), dict(post=2, dev=-1)]))
    if r == 0: return K([])
    if r == 1: return K([1], release_level=rng.choice(["", "gamma", "RC1", "candidate"]) or "gamma")
    if r == 2: return K([1], local=())
    if r == 3: return K([1], local=rng.choice([("a", ""), ("a.b",), ("a\n",), (" a",), ("a", "b-c"), ("\xe9",)]))
    if r == 4: return K([1], serial=3)
    return K([1], release_level="final", serial=1, post=2)
TOKENS = ["1", "0", ".", "-", "a", "rc", "post", "r", "dev", "+", "!", "v", " "]
def parse_small(ctx):
    rng = ctx.rng
    for k in range(5 if not ctx.thorough else 6):
        for t in itertools.product(TOKENS, repeat=k):
            if ctx.mine() and (k < 4 or rng.random() < (0.12 if not ctx.thorough else 0.25)): one(ctx, S("1" * (k > 2) + "".join(t)))
    for t in ("1.0+K", "1.0+s", "1.0post1", "1.0-rev2", "1.0alpha1", "1.0dev", "v1.0", "1.0+i", "10!2"):
        for i in range(len(t)):
            for ch in {"K": "\u212a", "k": "\u212a", "s": "\u017f", "S": "\u017f", "i": "\u0130\u0131", "1": "\u0661\uff11\u00b9", "a": "\uff41\u00aa", "0": "\uff10", "2": "\u00b2"}.get(t[i], "\u0430"):
                if ctx.mine(): one(ctx, S(t[:i] + ch + t[i + 1:]))
    for pre in ("", "a", "a1", ".rc-", "-c", "_pre_2"):
        for post in ("", "-1", "post", ".post2", "-r-3", "rev", "-"):
            for dev in ("", "dev", ".dev0", "-dev-4", "_dev."):
                for loc in ("", "+x", "+", "+1.x", "+x-"):
                    if ctx.mine(): one(ctx, S("1.0" + pre + post + dev + loc))
def parse_rnd(ctx):
    rng = ctx.rng
    for i in range(500 if not ctx.thorough else 6000):
        s = rver(rng)
        one(ctx, S(s))
        for _ in range(2): one(ctx, S(mutate(rng, s)))
        one(ctx, rkw(rng))
        if i % 10 == 0: one(ctx, badkw(rng))
def respell(rng, s):
    "another spelling, often of an equal version"
    t = s.lower().strip()
    for a, b in rng.sample([("alpha", "a"), ("a", "alpha"), ("beta", "b"), ("rc", "c"), ("preview", "pre"), ("rc", "pre"), ("post", "rev"), ("post", "r"), (".dev", "dev"), (".post", "-post"), ("-", "_"), ("_", "."), ("1.0", "1"), ("1", "01"), ("dev", "dev0"), ("0", "")], 2):
        t = t.replace(a, b, 1)
    return rcase(rng, t + rng.choice(["", "", " ", ".0"]))
def good(d):
    try: d["_"]()
    except Exception: return False
    return True
HUGE = [str(2**31 - 1), str(2**63 - 1), str(2**63), str(10**20)]
FIELDS = [["", "0!", "1!"], ["1", "1.0", "1.1", "2", "10", "1.0.0.0.0.0.0", "1.0.0.0.0.0.1"], ["", "a", "a1", "b", "rc", "rc1", "rc10"], ["", ".post", ".post1", "-2"], ["", ".dev", ".dev1", ".dev10"], ["", "+a", "+a.1", "+1", "+01", "+10", "+ab"]]
for f, t in ((0, "%s!"), (1, "1.%s"), (2, "a%s"), (2, "rc%s"), (3, ".post%s"), (4, ".dev%s"), (5, "+%s"), (5, "+a.1.b.%s")): FIELDS[f] += [t % n for n in HUGE]
def field(rng, j): return rng.choice(FIELDS[j]) if rng.random() < 0.6 else rng.choice([x for x in FIELDS[j] if len(x) < 9])
def pairs(ctx):
    rng = ctx.rng
    # two versions that differ in one or two fields
    for i in range(1800 if not ctx.thorough else 20000):
        f = [field(rng, x) for x in range(6)]; g = list(f)
        for j in rng.sample(range(6), rng.choice([1, 1, 2])): g[j] = field(rng, j)
        pair(ctx, S("".join(f)), S("".join(g)))
    for i in range(900 if not ctx.thorough else 8000):
        a = S(rver(rng)) if rng.random() < 0.6 else rkw(rng)
        r = rng.random()
        if r < 0.4 and a["how"] == "s": b = S(respell(rng, "".join(map(chr, a["s"]))))
        elif r < 0.6:
            b = K([1])
            try: b = S(str(a["_"]()) + rng.choice(["", "", "0", ".0", "+1", ".dev1"]))
            except Exception: pass
        elif r < 0.8: b = rkw(rng)
        else: b = S(rver(rng))
        if good(a) and good(b): pair(ctx, a, b)
    for i in range(60 if not ctx.thorough else 500):
        many = [S("".join(field(rng, x) for x in range(6))) for _ in range(rng.choice([5, 12, 20]))] + [d for d in (rkw(rng) for _ in range(4)) if good(d)]
        sort(ctx, many)
def bulk(ctx):
    "many components"
    rng = ctx.rng
    for i in range(120 if not ctx.thorough else 1500):
        n = rng.choice([8, 10, 17, 40, 100])
        rel = [rng.choice(["0", "0", "1", "2", "10", "9"]) for _ in range(n)]
        loc = [rng.choice(["a", "1", "10", "b2", "0"]) for _ in range(rng.choice([0, 0, 12, 40]))]
        def text(rel, loc): return ".".join(rel) + ("+" + rng.choice(".-_").join(loc) if loc else "")
        r2, l2 = list(rel), list(loc)
        k = rng.random()
        if k < 0.35: r2[-1 - rng.randrange(3)] = rng.choice(["0", "1", "2", "11"])
        elif k < 0.6: r2 += ["0"] * rng.choice([1, 5, 30]) + rng.choice([[], ["1"]])
        elif k < 0.8 and l2: l2[-1] = rng.choice(["a", "2", "11", "c"])
        elif k < 0.9 and l2: l2 += rng.choice([["0"], ["a"], ["a", "1"]])
        a, c = S(text(rel, loc)), S(text(r2, l2))
        one(ctx, a); pair(ctx, a, c); pair(ctx, c, a)
        if i % 10 == 0:
            one(ctx, K([int(x) for x in rel], local=tuple(loc) or None))
            sort(ctx, [a, c] + [S(text([rng.choice("01") for _ in range(rng.choice([1, 9, 30]))], [])) for _ in range(30)])
