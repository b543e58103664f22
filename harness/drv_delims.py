"split_delimiters: recorded calls."
from textgen import *
from drv_quotes import gen
import big.text as T
N = lambda o, c: (o, c, "", 0, 1)
Q = lambda o, c=None, e="\\", m=0: (o, c or o, e, 1, m)
DEFAULT = [N("(", ")"), N("[", "]"), N("{", "}"), Q("'"), Q('"')]
# maps over the small alphabet ( ) ' \ and a
SMALL = [[N("(", ")"), Q("'")], [N("(", ")"), Q("'", m=1)], [N("((", ")"), N("(", "))")], [N("(", ")"), N("((", "))"), Q("'")], [Q("'", "')"), N("(", ")")],
         [Q("'"), Q("''", m=1)], [Q("(", ")", "a")], [Q("(", ")", "'"), N("((", "a)")], [N("(", ")a"), N("a", ")")], [Q("a", "')", "'")], [Q("(", "\\)"), N("a", ")")],
         [N("(", "a"), N(")", "a")], [Q("'("), Q("'")], [Q("'", "'a'"), N("(", ")'")], [Q("(", "(", "a"), Q("((", "((", "a")]]
BIG = [DEFAULT, DEFAULT + [N("<", ">")], [Q("#", "\n", m=1), N("(", ")"), Q("'")], [N("<!--", "-->"), N("<", ">"), Q("'"), N("</", "/>")], [Q("'", "'", "^"), Q("'''", "'''", "\\", 1), N("(", ")")],
       [N("begin", "end"), Q("b", "e", "g", 1), N("be", "n")], [Q("<(", ")>"), N("([", "])")], [Q('"'), N('<"<', '>">')], [Q("(", ")", "["), N("([", "])")], [N("(", ")"), N("[(", ")]")]]
# the default map but for one or two attributes
NEAR = [DEFAULT[:3] + [Q("'", m=1), Q('"', m=1)], DEFAULT[:3] + [Q("'"), Q('"', m=1)], DEFAULT[:3] + [Q("'", e="^"), Q('"')], DEFAULT[:4], DEFAULT[:3] + [Q("'"), Q('"', e="\\\\")],
        [N("(", ")"), N("[", "]"), N("{", ")"), Q("'"), Q('"')], [Q("(", ")"), N("[", "]"), N("{", "}"), Q("'"), Q('"')], DEFAULT[::-1], SMALL[0], SMALL[1], [N("(", ")"), Q("'", e="a")]]
def call(ctx, rng, s, d, b, state):
    rec = {"fn": "sd", "s": cps(s), "b": int(b), "state": [cps(x) for x in state],
           "d": [{"open": cps(o), "close": cps(c), "esc": cps(e), "quoting": q, "multi": m} for o, c, e, q, m in d]}
    def make(c, e, q, m):
        kw = {}
        if e: kw["escape"] = conv(e, b)
        if q: kw["quoting"] = True
        if not m: kw["multiline"] = False
        elif rng.random() < 0.3: kw["multiline"] = True
        x = T.Delimiter(conv(c, b), **kw)
        r = rng.random()
        return x.copy() if r < 0.2 else T.Delimiter(x) if r < 0.3 else x
    m = {conv(o, b): make(c, e, q, mm) for o, c, e, q, mm in d}
    a = [m]
    if d is DEFAULT and rng.random() < 0.7: a = rng.choice([[], [None], [T.split_delimiters_default_delimiters], [T.split_delimiters_default_delimiters_bytes]])
    kw = {}
    st = [conv(x, b) for x in state]
    if state: kw["state"] = rng.choice([list, tuple, iter])(st) if len(state) > 1 or any(len(x) != 1 for x in state) or rng.random() < 0.5 else st[0]
    elif rng.random() < 0.3: kw["state"] = rng.choice([(), [], None, ""])
    sv = conv(s, b)
    if rng.random() < 0.1: sv = (BB if b else SS)(sv)
    gen(ctx, rec, lambda: T.split_delimiters(sv, *a, **kw))
def objects(ctx):
    "Delimiter objects: every small combination of arguments, made, copied and compared"
    rng = ctx.rng
    import itertools
    ALL = [dict(close=c, esc=e, quoting=q, multi=m, b=b) for c, e, q, m, b in itertools.product((")", "'", "-->", "\\", "\\)"), ("", "\\", "^"), (0, 1), (0, 1), (0, 1))]
    def make(d):
        kw = {}
        b = d["b"]
        if d["esc"] or rng.random() < 0.5: kw["escape"] = conv(d["esc"], b)
        if d["quoting"] or rng.random() < 0.5: kw["quoting"] = bool(d["quoting"])
        if not d["multi"] or rng.random() < 0.5: kw["multiline"] = bool(d["multi"])
        return T.Delimiter(conv(d["close"], b), **kw)
    def js(d): return dict(d, close=cps(d["close"]), esc=cps(d["esc"]))
    def seen(x):
        b = isinstance(x.close, bytes)
        if type(x.escape) is not type(x.close): return {"close": [], "esc": [], "quoting": 0, "multi": 0, "b": 9}
        return {"close": cps(x.close), "esc": cps(x.escape), "quoting": int(bool(x.quoting)), "multi": int(bool(x.multiline)), "b": int(b)}
    GOOD = []
    for d in ALL:
        try: make(d); GOOD.append(d)
        except ValueError: pass
    for d in ALL:
        for _ in range(6 if not ctx.thorough else 40):
            if not ctx.mine(): continue
            d2 = dict(d) if rng.random() < 0.3 else dict(rng.choice(GOOD))
            if rng.random() < 0.6:
                d2 = dict(d); k = rng.choice(["close", "esc", "quoting", "multi", "b"]); d2[k] = rng.choice(ALL)[k]
            def run():
                x = make(d)
                cs = [x.copy(), T.Delimiter(x)]
                ok = all(type(y) is T.Delimiter and y == x and not (y != x) and hash(y) == hash(x) and y is not x and seen(y) == seen(x) for y in cs)
                try: y = make(d2)
                except ValueError: return x, ok, 2, 2
                e = x == y
                return x, ok, (int(e) if e is not NotImplemented and e == (y == x) and e == (not (x != y)) else 3), int(hash(x) == hash(y))
            ctx.case({"fn": "dobj", "d": js(d), "d2": js(d2)}, run,
                     lambda v: ("delimiter" if type(v[0]) is T.Delimiter else "other", {"d": seen(v[0]), "copy": int(v[1]), "eq": v[2], "hash": v[3]}))
def states(rng, d):
    st = []
    while rng.random() < 0.5 and len(st) < 3:
        x = rng.choice(d); st.append(x[0])
        if x[3]: break
    return st
def small(ctx):
    rng = ctx.rng
    for s in strings("()'\\a", 4 if not ctx.thorough else 6):
        for d in SMALL:
            if not ctx.mine(): continue
            call(ctx, rng, s, d, rng.random() < 0.3, [] if rng.random() < 0.7 else states(rng, d))
    for s in strings("('\n\\", 4 if not ctx.thorough else 7):
        for d in (SMALL[0], SMALL[1], SMALL[5]):
            if ctx.mine(): call(ctx, rng, s, d, rng.random() < 0.3, [] if rng.random() < 0.7 else states(rng, d))
NLS = ["\n", "\r", "\r\n", "\v", "\f", "\x1c", "\x85", "\u2028"]
def text(rng, d, b, st):
    "mostly legal nesting"
    by = {x[0]: x for x in d}
    st = [by[x] for x in st if x in by]; out = []
    words = ["a", "b ", "x", "\\"]
    toks = [t for x in d for t in x[:3] if t]
    for _ in range(rng.randrange(0, 16)):
        top = st[-1] if st else None
        r = rng.random()
        if top and r < 0.3: out.append(top[1]); st.pop()
        elif (not top or not top[3]) and r < 0.6: x = rng.choice(d); out.append(x[0]); st.append(x)
        elif top and top[3] and r < 0.5: out.append(top[2] + rng.choice(toks + [top[1], top[2], "n", "\n"]))
        elif r < 0.85: out.append(rng.choice(words[:3]) if not (top and top[3]) else rng.choice(words + toks))
        elif r < 0.92: n = rng.choice(NLS); out.append(n if not (b and ord(n[0]) > 255) and (not top or top[4] or rng.random() < 0.3) else "c")
        elif rng.random() < 0.3: out.append(rng.choice(toks))
    if rng.random() < 0.3:
        while st: out.append(st.pop()[1])
    return "".join(out)
def rnd(ctx):
    rng = ctx.rng
    for i in range(1500 if not ctx.thorough else 10000):
        b = rng.random() < 0.3
        r = rng.random()
        if r < 0.15: d = rng.choice(NEAR)
        elif r < 0.5: d = rng.choice(BIG)
        elif r < 0.6: d = rng.choice(SMALL)
        else:
            al = rng.choice(["<>", "()'", "ab", "()[", "\"'<"])
            w = lambda n: "".join(rng.choice(al) for _ in range(rng.choice([1, 1, 1, 2, 3][:n + 2])))
            d = []
            for _ in range(rng.randrange(1, 4)):
                o = w(3)
                if rng.random() < 0.5: x = N(o, w(3))
                else:
                    c = w(3); e = rng.choice(["\\", "\\", rng.choice(al)])
                    if e == c: e = "\\"
                    x = Q(o, c, e, rng.randrange(2))
                if all(y[0] != x[0] for y in d): d.append(x)
        st = states(rng, d) if rng.random() < 0.3 else []
        if rng.random() < 0.05 and len(d) > 1: st = [rng.choice(d)[rng.choice([0, 0, 1])] for _ in range(2)]
        call(ctx, rng, text(rng, d, b, st), d, b, st)
def bulk(ctx):
    "deep nesting, and long texts"
    rng = ctx.rng
    for i in range(3 if not ctx.thorough else 40):
        b = rng.random() < 0.3
        d = rng.choice([DEFAULT, DEFAULT + [N("<", ">")], [N("<!--", "-->"), N("<", ">"), Q("'"), N("</", "/>")]])
        nest = [x for x in d if not x[3]]
        n = rng.choice([40, 80, 130])
        st = [rng.choice(nest) for _ in range(n)]
        s = "".join(x[0] + rng.choice(["", "a"]) for x in st) + rng.choice(["", "'q('"]) + "".join(x[1] for x in st[::-1])
        call(ctx, rng, s[:len(s) - rng.choice([0, 0, 0, 1])], d, b, [])
        call(ctx, rng, "".join(rng.choice([x[0] + rng.choice(["", "q", "b" * 40]) + x[1], "a "]) for x in [rng.choice(d) for _ in range(n)]), d, b, [])
        k = rng.randrange(1, 60)
        call(ctx, rng, "".join(x[1] for x in st[:k][::-1]) + "a", d, b, [x[0] for x in st[:k]])
