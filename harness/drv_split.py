import itertools
from drvlib import tag
from textgen import *
import big.text as T
import big.all as big

KEEP = {"no": [False, 0, None], "yes": [True, 1, "yes", big.AS_PAIRS.lower()], "alt": [big.ALTERNATING], "pairs": [big.AS_PAIRS]}
STRIP = {"no": [False, None, 0], "yes": [True, 1, "yes"], "left": [big.LEFT], "right": [big.RIGHT], "prog": [big.PROGRESSIVE]}
POOL = [["x"], ["x", "xx"], ["xy"], ["xy", "yx"], ["x", "xyx"], ["xx", "xxx"], ["x", "y"], ["xy", "y"], ["yx", "x", "xyy"], ["a", "ax"],
        ["xax", "ax"], ["xx"], ["axa"], ["xx", "y"], ["xy", "yy", "x"], ["aa", "xa", "y"], ["xyx"], ["x.", ".x", "."], ["(", ")x", "x*"], ["^", "$x"]]
TABLES = ["str_whitespace", "str_whitespace_without_crlf", "unicode_whitespace", "unicode_whitespace_without_crlf", "ascii_whitespace",
          "ascii_whitespace_without_crlf", "str_linebreaks", "str_linebreaks_without_crlf", "unicode_linebreaks", "unicode_linebreaks_without_crlf",
          "ascii_linebreaks", "ascii_linebreaks_without_crlf"]
BTABLES = ["bytes_whitespace", "bytes_whitespace_without_crlf", "bytes_linebreaks", "bytes_linebreaks_without_crlf"]
WS = "\t\n\v\f\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2005\u200a\u2028\u2029\u202f\u205f\u3000a\u200bb\r\n"

def sepform(seps, b, k, table):
    "the separators, as one of the kinds of iterables allowed"
    if table:
        if k % 3 == 0 and table in ("str_whitespace", "bytes_whitespace"): return None
        return getattr(big, table)
    v = [conv(x, b) for x in seps]
    one = all(len(x) == 1 for x in v)
    k %= 12
    if k < 3: return tuple(v)
    if k == 3: return list(v)
    if k == 4: return set(v)
    if k == 5: return frozenset(v)
    if k == 6: return iter(v)
    if k == 7: return (x for x in v)
    if k == 8: return [(BB if b else SS)(x) for x in v]
    if k == 9: return v + v
    if k == 10 and one: return (b"" if b else "").join(v)
    if k == 11: return dict.fromkeys(v)
    return tuple(v)

def build(ctx, rng, fn, s, seps, b, table="", kind=None, force={}):
    k = rng.randrange(1000) if kind is None else kind
    sv = conv(s, b)
    if rng.random() < 0.15: sv = (BB if b else SS)(sv)
    sp = sepform(seps, b, k, table)
    rec = {"fn": fn, "s": cps(s), "seps": [cps(x) for x in seps], "table": table, "b": int(b)}
    if fn == "multisplit":
        rec["keep"] = rng.choice(["no", "yes", "alt", "pairs"]); rec["strip"] = rng.choice(["no", "yes", "left", "right", "prog", "prog"] if ctx.cfg["part"] == "C15" else ["no"])
        m = rng.choice([None, -1, -1, -2, -100, 0, 1, 2, 3, 4, 10])
        rec["max"] = -1 if m is None else m
        rec["separate"] = rng.randrange(2); rec["reverse"] = rng.randrange(2)
        rec.update(force); m = rec["max"] if force else m
        kw = dict(keep=rng.choice(KEEP[rec["keep"]]), strip=rng.choice(STRIP[rec["strip"]]), maxsplit=m,
                  separate=rng.choice([False, 0, None] if not rec["separate"] else [True, 1, "x"]), reverse=rng.choice([False, 0] if not rec["reverse"] else [True, 1]))
        # leave defaults out now and then
        if rec["max"] == -1 and rng.random() < 0.5: del kw["maxsplit"]
        for n in ("separate", "reverse", "keep", "strip"):
            if not kw[n] and rng.random() < 0.3: del kw[n]
        ctx.case(rec, (lambda: list(T.multisplit(sv, sp, **kw))) if sp is not None or k % 2 else lambda: list(T.multisplit(sv, **kw)))
    elif fn == "multistrip":
        if sp is None: sp = getattr(big, table)
        l, r = rng.randrange(2), rng.randrange(2)
        if rng.random() < 0.5: l = r = 1
        rec["left"], rec["right"] = l, r
        kw = {}
        if not l or rng.random() < 0.5: kw["left"] = bool(l)
        if not r or rng.random() < 0.5: kw["right"] = bool(r)
        # (multistrip returns an unchanged string as it is, be it of a subclass: the tests say so)
        ctx.case(rec, lambda: T.multistrip(sv, sp, **kw), enc=lambda v: tag(bytes(v) if type(v) is BB else str(v) if type(v) is SS else v))
    else:
        if sp is None: sp = getattr(big, table)
        rec["count"] = force.get("count") or rng.choice([0, 1, 1, 2, 3, 6]); rec["separate"] = rng.randrange(2); rec["reverse"] = rng.randrange(2)
        rec["fn"] = rng.choice(["multipartition", "multirpartition"])
        kw = dict(separate=bool(rec["separate"]), reverse=bool(rec["reverse"]))
        if rec["separate"] and rng.random() < 0.5: del kw["separate"]
        if not rec["reverse"] and rng.random() < 0.5: del kw["reverse"]
        f = getattr(T, rec["fn"])
        a = (sv, sp) if rec["count"] == 1 and rng.random() < 0.5 else (sv, sp, rec["count"])
        ctx.case(rec, lambda: f(*a, **kw))

def fns(ctx): return {"C14": ["multisplit"], "C15": ["multisplit", "multistrip"], "C16": ["multipartition"]}[ctx.cfg["part"]]

def small(ctx):
    rng = ctx.rng; i = 0
    n = 5 if not ctx.thorough else 7
    for s in strings("axy", n):
        for seps in POOL[:17]:
            if not ctx.mine(): continue
            if not ctx.thorough and len(s) == n and rng.random() < 0.6: continue
            for fn in fns(ctx):
                build(ctx, rng, fn, s, seps, rng.random() < 0.3)
def rnd(ctx):
    rng = ctx.rng
    for i in range(3500 if not ctx.thorough else 12000):
        b = rng.random() < 0.3
        r = rng.random()
        fn = rng.choice(fns(ctx))
        if i % 20 == 3 and fn == "multisplit":      # separate: as many adjacent separators as you like, and maxsplit near their number
            al = rng.choice(["x", "xy"]); s = rstring(rng, "a" + al * 3, 10) + rng.choice(al) * rng.randrange(3)
            n = sum(s.count(c) for c in al)
            build(ctx, rng, fn, s, list(al), b, "", None, {"separate": 1, "max": max(-1, n - rng.randrange(-1, 4))})
            continue
        if i % 200 == 9 or i % 200 == 50:      # many separators, many of them in the text
            t = "abcdefghijk"
            seps = [x + y for x in t for y in t][:rng.choice([60, 105, 121])] + ["x", "zzz"]; rng.shuffle(seps)
            s = "".join(rng.choice(seps[-3:] + seps[:5] + ["-", "-", "a"]) for _ in range(rng.choice([10, 20])))
            build(ctx, rng, fn, s, seps, b)
            continue
        if i % 200 == 11 and fn != "multistrip":      # many separators in the text
            seps = rng.choice([["x"], ["x", "yy"]])
            build(ctx, rng, fn, "".join(rng.choice(seps + ["a"]) for _ in range(rng.choice([70, 110, 150]))), seps, b, "", None, {"count": rng.choice([63, 64, 65, 99, 100, 101])} if fn == "multipartition" else {"max": rng.choice([31, 32, 33, 64, 65, 100])})
            continue
        if i % 50 == 7:      # long runs of overlapping separators: must not take exponential time
            seps, t = rng.choice([(["x", "xx"], ""), ([], "bytes_whitespace" if b else "str_whitespace"), (["xy", "x", "y"], "")])
            s = "".join(rng.choice(["", "a"]) + rng.choice(["x", "xx", "xy"] if seps else ["\r\n", " ", "\r", "\n"]) * rng.randrange(10, 40) for _ in range(2)) + rng.choice(["", "a"])
            build(ctx, rng, fn, s, seps, b, t)
        elif r < 0.35:
            t = rng.choice(BTABLES if b else TABLES)
            s = rstring(rng, [c for c in WS if ord(c) < 256] + ["a", "b", "\r\n"] if b else list(WS) + ["a", "b", "\r\n", "\n\r"], 16)
            build(ctx, rng, fn, s, [], b, t)
        else:
            al = rng.choice(["axy", "xy", "ax", "xyz.(*^$\\", "aAxX", "\xe9\xdfx" if b else "\u0130\u00df\u1e9ex\u200d"])
            seps = list({"".join(rng.choice(al) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))) for _ in range(rng.randrange(1, 6))})
            if rng.random() < 0.3: seps = rng.choice(POOL); al = "axy.()*^$"
            elif rng.random() < 0.3:      # long separators that are parts of each other
                w = "".join(rng.choice(al) for _ in range(rng.randrange(5, 12)))
                seps = list({w} | {w[i:j] for i, j in ((rng.choice([0, 0, rng.randrange(len(w))]), rng.choice([len(w), rng.randrange(len(w) + 1), rng.randrange(len(w) + 1)])) for _ in range(rng.randrange(1, 6))) if i < j})
            s = rstring(rng, list(al) + seps, rng.choice([10, 20, 40]))
            build(ctx, rng, fn, s, seps, b)
def bulk(ctx):
    "long strings with many separators"
    rng = ctx.rng
    for i in range(24 if not ctx.thorough else 120):
        if not ctx.mine(): continue
        b = rng.random() < 0.3
        al, seps = rng.choice([("axy", ["x", "xy"]), ("axy", ["x", "y", "xx"]), ("ax", ["x"]), ("axy", ["xyx", "yx"])])
        n = rng.choice([260, 300, 520, 700])
        s = "".join(rng.choice(list(al) + seps) for _ in range(n // 2)) + rng.choice(["", "x" * 270, "a" * 270])
        build(ctx, rng, rng.choice(fns(ctx)), s, seps, b, "", None, rng.choice([{}, {"max": -1}, {"max": rng.randrange(100, 200)}, {"max": 255, "separate": 1}]) if ctx.cfg["part"] != "C16" else {"count": rng.choice([1, 40, 130, 256])})
