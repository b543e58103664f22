"int_to_words"
import re
from drvlib import tag
import big.text as T
def enc(v):
    if type(v) is not str: return tag(v)
    m = re.fullmatch("(-?)([0-9]+)", v)
    if m: return "digits", ([-1] if m[1] else []) + [int(c) for c in m[2]]
    toks = re.findall("[a-z]+|[^a-z]+", v)
    return ("words", toks) if toks else ("empty", 0)
class I(int): pass
def one(ctx, n, fl=None, od=None, cls=None):
    rng = ctx.rng
    for f in ((0, 1) if fl is None else (fl,)):
        for o in ((0, 1) if od is None else (od,)):
            a = cls(n) if cls else n
            fv = rng.choice([True, 1, "x"]) if f else rng.choice([False, 0, ""])
            ov = rng.choice([True, 1]) if o else rng.choice([False, 0, None])
            rec = {"neg": int(n < 0), "d": [int(c) for c in str(abs(n))], "fl": f, "ord": o, "bad": 0}
            k = rng.randrange(3)
            if k == 0 and f and not o: fn = lambda: T.int_to_words(a)
            elif k == 1 and not o: fn = lambda: T.int_to_words(a, flowery=fv)
            elif k == 1 and f: fn = lambda: T.int_to_words(a, ordinal=ov)
            else: fn = lambda: T.int_to_words(a, flowery=fv, ordinal=ov)
            ctx.case(rec, fn, enc)
def run(ctx):
    rng = ctx.rng
    for n in range(0, 1200 if not ctx.thorough else 20000):
        if ctx.mine():
            one(ctx, n)
            if n % 7 == 0 or ctx.thorough: one(ctx, -n)
    for e in range(0, 90):
        for k in (1, 2, 11, 20, 100, 110, 999):
            for d in (-1, 0, 1, 20, 100):
                if ctx.mine():
                    n = k * 10 ** e + d
                    one(ctx, n if rng.random() < 0.7 else -n, od=rng.randrange(2) if d else None)
    def rnd():
        # groups, many of them zero or special
        g = rng.choice([1, 2, 3, 4, 5, 8, 12, 20, 21, 22, 23, 24, 25, 26, 30])
        n = 0
        for _ in range(g):
            n = n * 1000 + rng.choice([0, 0, 0, 0, 1, 5, 10, 12, 13, 19, 20, 30, 45, 99, 100, 101, 110, 112, 120, 200, 999, rng.randrange(1000)])
        return n
    for _ in range(500 if not ctx.thorough else 15000):
        n = rnd()
        one(ctx, rng.choice([n, -n]), rng.randrange(2), rng.randrange(2), cls=I if rng.random() < 0.03 else None)
    if ctx.shard == 0:
        for b in (True, False): one(ctx, int(b), cls=bool)
        for e in (74, 75, 76, 200, 1000, 4000):
            for d in (-1, 0, 1):
                one(ctx, 10 ** e + d); one(ctx, -(10 ** e) + d)
        for bad in (3.14, 3.0, "12", None, b"1", [1], {1: 2}, 1j, float("nan")):
            ctx.case({"neg": 0, "d": [0], "fl": 1, "ord": 0, "bad": 1, "arg": repr(bad)}, lambda: T.int_to_words(bad), enc)
