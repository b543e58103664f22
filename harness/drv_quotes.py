"split_quoted_strings, and the deprecated split_quoted_strings and parse_delimiters: recorded calls."
import inspect
from textgen import *
import big.text as T
import big.deprecated as D

def collect(it):
    "what an iterator yields, until it ends or raises"
    segs = []
    try:
        for x in it: segs.append(x)
    except Exception as e:
        return segs, type(e).__name__
    return segs, ""
def enc_gen(v, n):
    segs, exc = v
    ts = set()
    out = []
    for x in segs:
        if type(x) is not tuple or len(x) != n: return "bad", 0
        row = [int(bool(x[0]))] if n == 2 else []    # (is_quoted, text)
        for y in x[len(row):]: ts.add(type(y).__name__); row.append(cps(y))
        out.append(row)
    return "gen" + "+".join(sorted(ts)), {"segs": out, "exc": exc}
def gen(ctx, rec, f):
    "run f() and record what the resulting iterator yields"
    t = "bytes" if rec["b"] else "str"
    def enc(v):
        k, v = enc_gen(v, 2 if rec["fn"] == "old" else 3)
        return ("gen" + t if k == "gen" else k), v
    ctx.case(rec, lambda: collect(f()), enc)

POOL = [(["'"], [], "\\"), (["'", '"'], [], "\\"), (["'"], ["'''"], "\\"), (['"'], ['"""'], "\\"), (["'"], ["''"], "\\"), ([], ["'", "'''"], "\\"), (["'", "''"], [], ""),
        (["'"], [], ""), ([], ["'"], "\\"), (["'\"", "\"'"], [], "\\"), (["'"], [], "\\\\"), (["'", "\\"], [], "\\"), (["'"], [], "'"), (["'\\"], ["'"], "\\"), (["\\'"], ["'"], "\\"),
        (["'"], ['"'], "\\"), (["ab"], ["a"], "b"), (["a"], ["b", "ba"], "c")]
def sqs(ctx, rng, s, p, b, state):
    quotes, multi, esc = p
    rec = {"fn": "sqs", "s": cps(s), "b": int(b), "quotes": [cps(x) for x in quotes], "multi": [cps(x) for x in multi], "esc": cps(esc), "state": cps(state)}
    q = [conv(x, b) for x in quotes]; m = [conv(x, b) for x in multi]
    q = forms(rng, q, b)
    kw = {}
    if m or rng.random() < 0.5: kw["multiline_quotes"] = forms(rng, m, b) if m or rng.random() < 0.5 else None
    e = conv(esc, b)
    if esc != "\\": kw["escape"] = e
    elif rng.random() < 0.5: kw["escape"] = rng.choice([e, e, None])
    if state: kw["state"] = conv(state, b)
    elif rng.random() < 0.3: kw["state"] = rng.choice([None, "", b""])
    sv = conv(s, b)
    if rng.random() < 0.1: sv = (BB if b else SS)(sv)
    a = [q]
    if quotes == ['"', "'"] and rng.random() < 0.5: a = rng.choice([[], [None], DEFAULT, DEFAULT])
    gen(ctx, rec, lambda: T.split_quoted_strings(sv, *a, **kw))
DEFAULT = [p.default for n, p in inspect.signature(T.split_quoted_strings).parameters.items() if n == "quotes"]
def states(p, rng, k=1):
    allq = p[0] + p[1]
    return [""] + [rng.choice(allq) for _ in range(k)]
def sqs_small(ctx):
    rng = ctx.rng
    for s in strings("a'\"\\", 4 if not ctx.thorough else 6):
        for p in POOL[:16]:
            if not ctx.mine(): continue
            for st in states(p, rng): 
                if ctx.thorough or rng.random() < 0.7: sqs(ctx, rng, s, p, rng.random() < 0.3, st)
    for s in strings("a'\n", 5 if not ctx.thorough else 7):
        for p in (POOL[0], POOL[2], POOL[8], POOL[5]):
            if not ctx.mine(): continue
            for st in states(p, rng): sqs(ctx, rng, s, p, rng.random() < 0.3, st)
NLS = ["\n", "\r", "\r\n", "\v", "\f", "\x1c", "\x1d", "\x1e", "\x85"]
def sqs_rnd(ctx):
    rng = ctx.rng
    for i in range(1500 if not ctx.thorough else 10000):
        b = rng.random() < 0.3
        if rng.random() < 0.6: p = rng.choice(POOL + [(['"', "'"], [], "\\")])
        else:
            al = rng.choice(["'\"", "ab'", "aA'"])
            w = lambda n: "".join(rng.choice(al) for _ in range(rng.randrange(1, n + 1)))
            qs = list({w(3) for _ in range(rng.randrange(1, 4))})
            k = rng.randrange(0, len(qs) + 1)
            p = (qs[:k], qs[k:], rng.choice(["\\", "\\", "", w(2), "\\\\"]))
        nl = rng.random() < 0.5
        al = p[0] + p[1] + [p[2] or "x", "a", "b", " ", "'", '"', "\\"] + ([rng.choice(NLS)] if nl else []) + ([rng.choice(["\u2028", "\u2029"])] if nl and not b else [])
        s = rstring(rng, al, rng.choice([8, 16, 30]))
        sqs(ctx, rng, s, p, b, rng.choice(states(p, rng)))
        if i % 20 == 0:    # arguments to be rejected
            bad = rng.choice([(["'", "'"], [], "\\"), (["'"], ["'"], "\\"), ([], ["'", '"', "'"], "\\"), (["'", ""], [], "\\"), (["'"], [""], "\\"), ([], [], "\\")])
            if bad[0] or bad[1]: sqs(ctx, rng, s, bad, b, rng.choice(["", "'"]))
            sqs(ctx, rng, s, (["'"], [], "\\"), b, "x")

# ---- deprecated
def old(ctx, rng, s, quotes, esc, triple, b):
    rec = {"fn": "old", "s": cps(s), "b": int(b), "quotes": cps(quotes), "esc": ord(esc), "triple": triple}
    q = [conv(x, b) for x in quotes]
    q = forms(rng, q, b)
    kw = {}
    if not triple or rng.random() < 0.5: kw["triple_quotes"] = bool(triple)
    if esc != "\\" or rng.random() < 0.5: kw["backslash"] = conv(esc, b)
    a = [q]
    if sorted(quotes) == ['"', "'"] and rng.random() < 0.5: a = rng.choice([[], [None]])
    sv = conv(s, b)
    if rng.random() < 0.1: sv = (BB if b else SS)(sv)
    gen(ctx, rec, lambda: D.split_quoted_strings(sv, *a, **kw))
DELIMS = [[("(", ")", 0, 1), ("[", "]", 0, 1), ("'", "'", 1, 0)], [("(", ")", 0, 1), ("'", "'", 1, 0), ("[", "]", 0, 0)], [("(", "]", 0, 1), ("[", "]", 0, 1)],
          [("(", ")", 1, 1), ("'", "'", 0, 0)], [("(", ")", 0, 1), ("'", "'", 0, 1)], [("(", ")", 1, 0), ("[", "]", 0, 1)], [("(", "[", 0, 1), ("[", "]", 0, 1)], [("[", "]", 0, 1), ("(", "[", 0, 1)],
          [("(", ")", 0, 1), ("[", "]", 0, 1), ("{", "}", 0, 1), ("'", "'", 1, 0), ('"', '"', 1, 0)]]
def pd(ctx, rng, s, d, b):
    rec = {"fn": "pd", "s": cps(s), "b": int(b), "d": [[ord(x[0]), ord(x[1]), x[2], x[3]] for x in d]}
    ds = []
    for o, c, k, n in d:
        if k == 0 and n == 1 and rng.random() < 0.5: ds.append(conv(o + c, b))
        else: ds.append(D.Delimiter(conv(o, b), conv(c, b), backslash=bool(k), nested=bool(n)))
    a = [rng.choice([list, tuple, iter, lambda l: (x for x in l)])(ds)]
    if d is DELIMS[-1] and rng.random() < 0.7: a = rng.choice([[], [None]])
    sv = conv(s, b)
    if rng.random() < 0.1: sv = (BB if b else SS)(sv)
    gen(ctx, rec, lambda: D.parse_delimiters(sv, *a))
def dep_small(ctx):
    rng = ctx.rng
    for s in strings("a'\"\\", 5 if not ctx.thorough else 7):
        if not ctx.mine(): continue
        for q, e, t in (("'\"", "\\", 1), ("'\"", "\\", 0), ("'", "\\", 1), ("'", '"', 1)):
            if ctx.thorough or len(s) < 5 or rng.random() < 0.5: old(ctx, rng, s, q, e, t, rng.random() < 0.3)
    for s in strings("a'\\", 7 if not ctx.thorough else 9):
        if "'''" in s and ctx.mine(): old(ctx, rng, s, "'", "\\", 1, rng.random() < 0.3)
    for s in strings("(])'\\", 4 if not ctx.thorough else 6):
        for d in DELIMS[:8]:
            if ctx.mine(): pd(ctx, rng, s, d, rng.random() < 0.3)
def dep_rnd(ctx):
    rng = ctx.rng
    for i in range(600 if not ctx.thorough else 6000):
        b = rng.random() < 0.3
        old(ctx, rng, rstring(rng, list("a b'\"\\\n") + ["'''", '"""', "''", "\\'"], rng.choice([10, 30])), rng.choice(["'\"", "\"'", "'", '"', "'\"|"]), rng.choice("\\\\\\^"), rng.randrange(2), b)
        d = rng.choice(DELIMS)
        # mostly balanced texts
        out = []; st = []
        for _ in range(rng.randrange(0, 25)):
            top = st[-1] if st else None
            r = rng.random()
            if top and r < 0.3: out.append(top[1]); st.pop()
            elif (not top or top[3]) and r < 0.6: x = rng.choice(d); out.append(x[0]); st.append(x)
            else: out.append(rng.choice(["a", "b ", "\\", "\\'", "\\)", "x\n"] + (["'", ")", "]", "("] if rng.random() < 0.2 else [])))
        while st and rng.random() < 0.9: out.append(st.pop()[1])
        pd(ctx, rng, "".join(out), d, b)
        if i % 30 == 0: pd(ctx, rng, "ab", rng.choice([[("\\", "x", 0, 1)], [("a", "\\", 0, 1)], [("(", ")", 0, 1), ("(", "]", 0, 1)]]), b)
def sqs_bulk(ctx):
    "long texts with many quoted strings, and long ones"
    rng = ctx.rng
    for i in range(10 if not ctx.thorough else 80):
        p = rng.choice(POOL[:9] + [(['"', "'"], [], "\\")])
        al = p[0] + p[1] + [p[2] or "x", "a", "b" * 30, " ", "\\'", "a'b'"]
        s = "".join(rng.choice(al) for _ in range(rng.choice([100, 200, 300])))
        sqs(ctx, rng, s + rng.choice(["", "a" * 300]), p, rng.random() < 0.3, rng.choice(states(p, rng)))
def dep_bulk(ctx):
    rng = ctx.rng
    for i in range(6 if not ctx.thorough else 60):
        b = rng.random() < 0.3
        s = "".join(rng.choice(list("a b'\"\\") + ["'''", '"""', "''", "\\'", "b" * 30]) for _ in range(rng.choice([100, 200])))
        old(ctx, rng, s, rng.choice(["'\"", "\"'", "'"]), "\\", rng.randrange(2), b)
        d = DELIMS[-1]
        n = rng.choice([40, 130, 300])
        st = [rng.choice(d[:3]) for _ in range(n)]
        s = "".join(x[0] + rng.choice(["", "a"]) for x in st) + rng.choice(["", "'q('"]) + "".join(x[1] for x in st[::-1])
        pd(ctx, rng, s[:len(s) - rng.choice([0, 0, 0, 1])], d, b)
        pd(ctx, rng, "".join(rng.choice(["()", "a", "[b]", "'('", "{}"]) for _ in range(n)), d, b)
