"The number conversion helpers of big.builtin"
import json, math, fractions, decimal, sys, warnings
from drvlib import tag
from textgen import *
import big.builtin as B
warnings.simplefilter("ignore")

class I(int): pass
class F(float): pass
class Odd:                       # a default that compares strangely
    def __eq__(self, o): return True
    def __ne__(self, o): return False
    __hash__ = None
class Hostile:
    def __eq__(self, o): raise RuntimeError("compared")
    __ne__ = __eq__
    def __bool__(self): raise RuntimeError("truth")
    __hash__ = None
DEFAULTS = [None, 0, False, "", object(), Odd(), Hostile(), float("nan"), 5, ()]

def conv_ref(f, o):
    try: v = f(o)
    except (TypeError, ValueError, OverflowError) as e: return {"ok": 0, "exc": type(e).__name__, "cls": "", "text": ""}, None
    return {"ok": 1, "exc": "", "cls": type(v).__name__, "text": text(v)}, v

def text(v):
    "repr(v), however many digits"
    sys.set_int_max_str_digits(0)
    try: return repr(v)
    finally: sys.set_int_max_str_digits(4300)
def one(ctx, o, made=0, obj=None):
    rng = ctx.rng
    i, _ = conv_ref(int, o)
    f, fv = conv_ref(float, o)
    fi = {"ok": 0, "text": ""}
    if fv is not None and math.isfinite(fv) and fv == math.floor(fv): fi = {"ok": 1, "text": text(fractions.Fraction(fv).numerator)}
    kind = "int" if isinstance(o, int) else "float" if isinstance(o, float) else "other"
    for fn in ("try_int", "try_float", "get_int", "get_float", "get_int_or_float"):
        fun = getattr(B, fn)
        for df in ((0,) if fn.startswith("try") else (0, 1, 2)):
            d = rng.choice(DEFAULTS)
            def enc(v):
                return "r", {"iso": int(v is o), "isd": int(v is d), "cls": type(v).__name__, "text": text(v) if type(v) in (int, float, bool) else ""}
            at = text(o) if kind != "other" else ""
            rec = {"fn": fn, "v": {"kind": kind, "i": i, "f": f, "fi": fi}, "def": int(df > 0), "made": made, "obj": obj or {}, "argcls": type(o).__name__,
                   "argtext": at, "arg": ascii(o)[:80] if not isinstance(o, int) or abs(o) < 10**50 else "big"}
            ctx.case(rec, (lambda: fun(o)) if df == 0 else (lambda: fun(o, d)) if df == 1 else (lambda: fun(o, default=d)), enc)

def objects(ctx):
    for obj in json.load(open(ctx.cfg["objs"])):
        if not ctx.mine(): continue
        ns = {}
        def method(how, good):
            def m(self):
                if how == "wrong": return "seven"
                if how in good: return good[how]
                raise {"TypeError": TypeError, "ValueError": ValueError, "OverflowError": OverflowError}[how]("no")
            return m
        if obj["mi"] != "absent": ns["__int__"] = method(obj["mi"], {"ok": 7})
        if obj["mf"] != "absent": ns["__float__"] = method(obj["mf"], {"ok": 2.5, "integral": 3.0, "inf": math.inf})
        if obj["mx"] != "absent": ns["__index__"] = method(obj["mx"], {"ok": 9})
        for bases in ((object,), (Hostile,), (Odd,)):
            one(ctx, type("C", bases, ns)(), 1, obj)

def values(ctx):
    rng = ctx.rng
    vs = [None, True, False, 0, 1, -1, 10**30, -10**30, 10**400, -10**400, 10**5000, 2**53, 2**53 + 1, I(5), I(10**400), 0.0, -0.0, 1.0, 1.5, -2.5, 1e22, 1e300, -1e300, 5e-324,
          math.inf, -math.inf, math.nan, F(2.0), F(2.5), F(math.nan), F(math.inf), 2.0**53, 0.1, 1j, 0j, complex(1, 0), complex(math.nan, math.inf),
          [], [1], (), (1,), {}, {1: 2}, set(), {1}, frozenset(), range(3), object(), int, float, len, iter([]), ..., NotImplemented, bytearray(b"12"), memoryview(b"12"), bytearray(b""), slice(1),
          fractions.Fraction(4, 1), decimal.Decimal(4), decimal.Decimal("NaN"), decimal.Decimal("sNaN"), decimal.Decimal("Infinity"), decimal.Decimal("1e400"),
          "9" * 4299, "9" * 4300, "9" * 4301, "9" * 400 + ".5", "1" * 5000 + ".0", "\u0663", "\u0663.\u0661", "\xbd", "\u2212" "1", "1\x00", "\ud800", "\xa012\u2003", "inf", "-Infinity", "nan", "+nan", "iNf", "infinit"]
    for o in vs:
        if ctx.mine(): one(ctx, o)
    for s in strings("1.-e", 4 if not ctx.thorough else 5):
        if ctx.mine():
            one(ctx, s)
            if rng.random() < 0.3: one(ctx, s.encode())
    for s in strings("0_ +", 3 if not ctx.thorough else 5):
        if ctx.mine(): one(ctx, s)
    for _ in range(60 if not ctx.thorough else 1500):
        s = rstring(rng, ["1", "2", "0", "00", ".", "-", "+", "e", "E5", "e-3", "_", " ", "\n", "inf", "nan", "0x", "9999999999999999", "e400", "j", "\t"], 6)
        o = rng.choice([s, s.encode(), SS(s), BB(s.encode()), bytearray(s.encode())])
        one(ctx, o)
        one(ctx, rng.choice([rng.uniform(-10, 10), float(rng.randrange(-10**20, 10**20)), rng.randrange(-10**6, 10**6) / 4, rng.randrange(10**rng.randrange(1, 40)),
                             rng.random() * 10**rng.randrange(-300, 300), complex(rng.randrange(3), rng.randrange(3))]))
