"Timestamps of the real code, in several local time zones."
import os, time, random, calendar, fractions, decimal
from datetime import datetime, timezone, timedelta, tzinfo, date
import big.time
from big.time import timestamp_human, timestamp_3339Z, datetime_set_timezone, datetime_ensure_timezone
from drvlib import tag

EPOCH = datetime(1970, 1, 1)
LO = calendar.timegm((2, 1, 3, 0, 0, 0)); HI = calendar.timegm((9999, 12, 29, 0, 0, 0))

def inst(sec, us=0): return [sec // 86400, sec % 86400, us]
def clock(d): return [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]

def seconds(rng, tz=None):
    if tz and tz[0] != tz[1]:
        # (summer time: only where the C library is known to apply the rule)
        y = rng.choice([1971, 1999, 2023, 2024, 2025, 2026, 2100, rng.randrange(1971, 9998)])
        if rng.random() < 0.4: return calendar.timegm((y, rng.randrange(1, 13), rng.randrange(1, 29), 0, 0, 0)) + rng.randrange(86400)
        s = rng.choice(changes(y, tz))
        return s + rng.choice([0, -1, 1, 3599, 3600, -3600, -3601, 1799, 1800, -1800, 7200, rng.randrange(-10000, 10000), rng.randrange(-200000, 200000)])
    k = rng.randrange(6)
    if k == 0: return rng.randrange(LO, HI)
    if k == 1: return rng.randrange(-10**6, 2 * 10**9)
    y = rng.choice([2, 9, 10, 68, 69, 99, 100, 999, 1000, 1600, 1699, 1900, 1904, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2099, 2100, 2400, 9998, rng.randrange(1001, 9999), rng.randrange(2, 1000)])
    m, d = rng.choice([(1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (10, 9), (rng.randrange(1, 13), rng.randrange(1, 29))])
    if m == 2 and d == 29 and not calendar.isleap(y): d = 28
    s = calendar.timegm((y, m, d, 0, 0, 0)) + rng.choice([0, 1, 86399, 86400, -1, 3600, 3599, 43200, rng.randrange(86400)])
    return min(max(s, LO), HI)

class NamedZone(tzinfo):
    def __init__(self, off): self.off = off
    def utcoffset(self, d): return self.off
    def dst(self, d): return timedelta(0)
    def tzname(self, d): return "UTC"

class SeasonZone(tzinfo):
    "an offset of its own in every month"
    def utcoffset(self, d): return timedelta(minutes=d.month * 7 - 60 * d.fold)
    def dst(self, d): return timedelta(0)
    def tzname(self, d): return "CET"

def zones(rng, tz):
    off = rng.choice([tz[0], tz[1], tz[0], tz[1], 0, 0, 3600, -3600, 19800, -12600, 50400, -43200, 86340, -86340, 1, -1, rng.randrange(-86399, 86400)])
    z = timezone(timedelta(seconds=off))
    k = rng.randrange(4)
    if k == 0: z = NamedZone(timedelta(seconds=off))
    if k == 1: z = timezone(timedelta(seconds=off), "GMT")
    if k == 2 and off == 0: z = timezone.utc
    return z, off

def changes(y, tz):
    "the two changes of a year, found by bisection with the C library"
    if (y, tz) not in CHANGES:
        r = []
        pts = [calendar.timegm((y, m, 1, 0, 0, 0)) for m in range(1, 13)]
        for a, b in zip(pts, pts[1:]):
            o = time.localtime(a).tm_gmtoff
            if o == time.localtime(b).tm_gmtoff: continue
            while b - a > 1:
                c = (a + b) // 2
                if time.localtime(c).tm_gmtoff == o: a = c
                else: b = c
            r.append(b)
        CHANGES[y, tz] = r or pts
    return CHANGES[y, tz]
CHANGES = {}

def moment(rng, tz):
    "-> (description, argument)"
    s = seconds(rng, tz)
    k = rng.randrange(12)
    if k == 0: return {"k": "num", "i": inst(s), "frac": 0}, s
    if k in (1, 2):
        n = rng.choice([0, 0, 1, 32, 63, rng.randrange(64)])
        return {"k": "num", "i": inst(s, n * 15625), "frac": 1}, s + n / 64
    us = rng.choice([0, 0, 1, 999999, 500000, rng.randrange(10**6)])
    if k in (3, 4):
        d = EPOCH + timedelta(seconds=s + rng.choice(tz[:2]), microseconds=us)
        if rng.random() < (0.2 if tz[0] == tz[1] else 0.5): d = d.replace(fold=1)
        return {"k": "local", "c": clock(d), "fold": d.fold, "frac": 1}, d
    if k in (5, 6, 7):
        z, off = zones(rng, tz)
        d = (EPOCH + timedelta(seconds=s + off, microseconds=us)).replace(tzinfo=z)
        if rng.random() < 0.2:
            class D(datetime): pass
            d = D(*clock(d), tzinfo=z)
        if rng.random() < 0.15:
            d = d.replace(tzinfo=SeasonZone(), fold=rng.randrange(2))
            off = int(d.utcoffset().total_seconds())
        return {"k": "clock", "c": clock(d), "off": off, "frac": 1}, d
    # time.struct_time
    j = rng.randrange(5)
    def st(t, off): return {"k": "clock", "c": list(t[:6]) + [0], "off": off, "frac": 0}, t
    if j == 0: return st(time.gmtime(s), 0)
    if j == 1:
        t = time.localtime(s)
        return st(t, t.tm_gmtoff)
    if j == 2:
        t = time.gmtime(s + rng.choice(tz[:2]))
        dst = rng.choice([-1, 0] if tz[0] == tz[1] else [-1, -1, 0, 1])
        t2 = time.struct_time(tuple(t[:8]) + (dst,))
        if dst >= 0: return st(t2, tz[dst])
        return {"k": "local", "c": list(t[:6]) + [0], "fold": 2, "frac": 0}, t2
    t = time.gmtime(s)
    txt = "%04d-%02d-%02d %02d:%02d:%02d " % t[:6]
    if j == 3: return st(time.strptime(txt + rng.choice(["UTC", "GMT"]), "%Y-%m-%d %H:%M:%S %Z"), 0)
    off = rng.choice([0, 3600, -3600, 19800, -12600, 50400])
    sg, o = ("-", -off) if off < 0 else ("+", off)
    return st(time.strptime(txt + "%s%02d%02d" % (sg, o // 3600, o // 60 % 60), "%Y-%m-%d %H:%M:%S %z"), off)

FIXED = [("UTC0", 0), ("XYZ-05:30", 19800), ("XYZ03:30", -12600), ("XYZ-14", 50400), ("XYZ12", -43200), ("XYZ-00:00:01", 1), ("XYZ4:56:02", -17762), ("GMT+5", -18000), ("GMT0", 0), ("UTC-9", 32400),
         ("XYZ-23:59", 86340)]
LOCALS = [(n, (o, o) + (1, 1, 0, 0) * 2) for n, o in FIXED] + [
    ("EST5EDT,M3.2.0,M11.1.0", (-18000, -14400, 3, 2, 0, 7200, 11, 1, 0, 7200)),
    ("CET-1CEST,M3.5.0,M10.5.0/3", (3600, 7200, 3, 5, 0, 7200, 10, 5, 0, 10800)),
    ("AEST-10AEDT,M10.1.0,M4.1.0/3", (36000, 39600, 10, 1, 0, 7200, 4, 1, 0, 10800)),
    ("LHST-10:30LHDT-11,M10.1.0,M4.1.0", (37800, 39600, 10, 1, 0, 7200, 4, 1, 0, 7200)),
    # one in which it is always summer now but for a week a year, and the other way round
    ("UTC0GMT-1,M1.3.3/0,M1.2.3/0", (0, 3600, 1, 3, 3, 0, 1, 2, 3, 0)),
    ("GMT0UTC-1,M6.2.4/0,M6.3.4/0", (0, 3600, 6, 2, 4, 0, 6, 3, 4, 0)),
    ]

def run(ctx):
    rng = ctx.rng
    n = 100 if not ctx.thorough else 1200
    for name, tz in LOCALS:
        if not ctx.mine(): continue
        os.environ["TZ"] = name
        time.tzset()
        assert time.localtime(0).tm_gmtoff in tz[:2], name
        for _ in range(n):
            m, arg = moment(rng, tz)
            for fn, f in (("human", timestamp_human), ("3339", timestamp_3339Z)):
                want = rng.choice([2, 2, 1, 0])
                w = {2: None, 1: rng.choice([True, 1, "yes"]), 0: rng.choice([False, 0, ""])}[want]
                how = rng.randrange(3)
                r = ctx.case({"what": "text", "fn": fn, "tz": tz, "want": want, "in": m, "zone": name},
                             lambda: f(arg) if want == 2 and how == 0 else f(arg, w) if how == 1 else f(t=arg, want_microseconds=w))
                if fn == "3339" and r["t"] == "str" and hasattr(big.time, "parse_timestamp_3339Z"):
                    txt = "".join(map(chr, r["v"]))
                    i = m["i"] if m["k"] == "num" else None
                    # (the text was judged to be the instant's: here only what parsing makes of it)
                    try: d = datetime.strptime(txt, "%Y-%m-%dT%H:%M:%S.%fZ" if "." in txt else "%Y-%m-%dT%H:%M:%SZ")
                    except ValueError: continue
                    parse(ctx, rng, txt, d, 1, 0, tz, name)
                    k = rng.randrange(3)
                    if k == 0: parse(ctx, rng, txt[:-1], d, 0, 0, tz, name)
                    if k == 1:
                        off = rng.choice([0, 3600, -3600, 19800, -12600, 50400, -43200])
                        sg, o = ("-", -off) if off < 0 else ("+", off)
                        parse(ctx, rng, txt[:-1] + "%s%02d:%02d" % (sg, o // 3600, o // 60 % 60), d, 1, off, tz, name)
            setters(ctx, rng)
        for want in (2, 1, 0):
            w = {2: None, 1: True, 0: False}[want]
            for fn, f in (("human", timestamp_human), ("3339", timestamp_3339Z)):
                for form in range(3):
                    lo = time.time_ns()
                    o = ctx.outcome(lambda: f(None, w) if form == 0 else f(want_microseconds=w) if form == 1 else f(t=None, want_microseconds=w))
                    hi = time.time_ns()
                    ii = lambda ns: inst(ns // 10**9, ns % 10**9 // 1000)
                    ctx.emit({"what": "text", "fn": fn, "tz": tz, "want": want, "in": {"k": "now", "lo": ii(lo), "hi": ii(hi), "frac": 1}, "zone": name, "o": o})
            for bad in ("2020-01-01", [1], b"5", date(2020, 1, 1), fractions.Fraction(1, 2), (2020, 1, 1, 0, 0, 0, 0, 0, 0), 1j, timedelta(1)):
                for fn, f in (("human", timestamp_human), ("3339", timestamp_3339Z)):
                    ctx.case({"what": "text", "fn": fn, "tz": tz, "want": want, "in": {"k": "bad"}, "zone": name}, lambda: f(bad, w))

OBJS = [None, timezone.utc, timezone(timedelta(hours=3)), NamedZone(timedelta(hours=-4)), timezone(timedelta(0), "Z0"), NamedZone(timedelta(seconds=-1))]
def objno(z):
    return next((i for i, o in enumerate(OBJS) if o is z), 99)

def parse(ctx, rng, txt, d, zoned, off, tz, name):
    z = rng.randrange(5)
    def enc(v):
        if not isinstance(v, datetime): return "other", 0
        o = v.utcoffset()
        return "dt", {"c": clock(v), "off": -100000 if o is None else int(o.total_seconds()), "zone": objno(v.tzinfo)}
    ctx.case({"what": "parse", "text": txt, "c": clock(d), "off": off, "zoned": zoned, "zone": z, "tz": tz, "name": name},
             lambda: big.time.parse_timestamp_3339Z(txt, timezone=OBJS[z]) if z or rng.random() < 0.5 else big.time.parse_timestamp_3339Z(txt), enc)

def setters(ctx, rng):
    s, us = seconds(rng), rng.choice([0, 1, 999999, rng.randrange(10**6)])
    has, z, fold = rng.randrange(6), rng.randrange(6), rng.randrange(2)
    d = (EPOCH + timedelta(seconds=s, microseconds=us)).replace(tzinfo=OBJS[has], fold=fold)
    for fn, f in (("set", datetime_set_timezone), ("ensure", datetime_ensure_timezone)):
        def enc(v):
            if not isinstance(v, datetime): return "other", {"c": [], "fold": 0, "zone": -1, "same": 0}
            return "dt", {"c": clock(v), "fold": v.fold, "zone": objno(v.tzinfo), "same": int(v is d)}
        ctx.case({"what": "zone", "fn": fn, "c": clock(d), "fold": fold, "has": has, "zone": z}, lambda: f(d, OBJS[z]), enc)
