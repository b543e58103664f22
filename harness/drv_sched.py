"""Plays scripts of operations on a real Scheduler with a controlled clock."""
import json, time
from fractions import Fraction
from drvlib import tag
CUR = None       # the Player whose clock the patched time module shows
_mono, _sleep = time.monotonic, time.sleep
def fake_monotonic():
    return CUR.clock() if CUR else _mono()
def fake_sleep(d):
    return CUR.slept(d) if CUR else _sleep(d)
time.monotonic, time.sleep = fake_monotonic, fake_sleep      # before big is imported
from big import scheduler as B

class TooMany(Exception):
    "a blocking next() slept far too often"

class T:
    "a time type that offers only what the documentation asks for"
    def __init__(self, u): self.u = u
    def _o(self, o): return o.u if isinstance(o, T) else o * 64
    def __le__(self, o): return self.u <= self._o(o)
    def __lt__(self, o): return self.u < self._o(o)
    def __ge__(self, o): return self.u >= self._o(o)
    def __gt__(self, o): return self.u > self._o(o)
    def __eq__(self, o): return self.u == self._o(o)
    def __add__(self, o): return T(self.u + self._o(o))
    def __radd__(self, o): return T(self.u + self._o(o))
    def __sub__(self, o): return T(self.u - self._o(o))
    __hash__ = None

class FakeRegulator(B.Regulator):
    def __init__(self, p): self.p = p; self.held = 0; self.lock = self
    def __enter__(self): self.held += 1; assert self.held == 1
    def __exit__(self, *a): self.held -= 1
    def now(self):
        assert self.held == 1, "now without the lock"
        return self.p.clock()
    def wake(self): assert self.held == 1, "wake without the lock"
    def sleep(self, d):
        assert self.held == 0, "sleep while holding the lock"
        return self.p.slept(d)

PAY = [None, 0, "", False, (), StopIteration, StopIteration()]

class Player:
    def __init__(self, ctx, script, kind):
        self.ctx, self.kind = ctx, kind
        self.script = list(script); self.i = 0
        self.t = [{}]
        self.now = 0
        self.units = [lambda u: u, lambda u: u / 64, lambda u: Fraction(u, 64), T, lambda u: u / 64 / 2**30, lambda u: u * 2**70, lambda u: u * 2.0**60][kind % 7]
        self.scale = [1, Fraction(1, 64), Fraction(1, 64), 0, Fraction(1, 2**36), 2**70, 2**60][kind % 7]
        self.sleeps = 0
        self.events = []; self.objs = []
        self.inner = False
        self.nb = None
    def clock(self): return self.units(self.now)
    def unit(self, d):
        if isinstance(d, T): return d.u
        if kind_is_int(self.units) and type(d) is not int: return -999
        x = Fraction(d) / self.scale
        return int(x) if x.denominator == 1 and abs(x) < 2**31 else -999
    def slept(self, d):
        self.sleeps += 1
        if self.sleeps > 300: raise TooMany()
        u = self.unit(d)
        self.t.append({"op": "sleep", "d": u})
        self.inner = True
        woken = False
        while self.i < len(self.script) and self.script[self.i]["op"] not in ("begin", "end"):
            e = self.script[self.i]; self.i += 1
            if e["op"] == "sleep": continue
            if e["op"] == "wake":
                woken = True
                break
            self.env(e)
        if not woken:         # nobody wakes it: it sleeps for the whole interval
            self.t.append({"op": "adv", "d": max(u, 0)}); self.now += max(u, 0)
        self.t.append({"op": "wake"})
        self.inner = False
    def obj_id(self, o):
        for k, x in enumerate(self.objs):
            if x is o: return "obj", k + 1
        return tag(o)
    def ev_id(self, o):
        for k, x in enumerate(self.events):
            if x is o: return k + 1
        return -1
    def env(self, e):
        op = e["op"]; s = self.s
        if op == "adv":
            self.now += e["d"]; self.t.append(e); return
        if op == "sched":
            n = len(self.objs)
            o = PAY[(n + self.kind) % len(PAY)] if n < len(PAY) and self.kind % 3 else object()
            self.objs.append(o)
            t = self.units(e["t"]); kw = {}
            if e["abs"]: kw["absolute"] = True
            elif self.kind % 2: kw["absolute"] = False
            if e["p"] != 100 or self.kind % 5 == 0: kw["priority"] = e["p"]
            if self.kind % 7 == 3 and e["p"] == int(e["p"]) and "priority" in kw: kw["priority"] = float(e["p"])
            def fn():
                ev = s.schedule(o, t, **kw)
                self.events.append(ev)
                return ev
            enc = lambda v: ("event", self.ev_id(v))
        elif op == "cancel":
            if e["id"] == 0:
                other = B.Scheduler(FakeRegulator(self))
                alien = other.schedule(0, self.units(e.get("t", 0)))
                fn = lambda: s.cancel(alien)
            elif e["id"] > len(self.events) or self.events[e["id"] - 1] is None: return
            else:
                ev = self.events[e["id"] - 1]
                fn = (lambda: s.cancel(ev)) if (e["id"] + self.kind) % 2 else (lambda: ev.cancel())
            enc = tag
        elif op == "queue":
            def fn():
                q = s.queue
                r = [self.ev_id(x) for x in q]
                if self.kind % 2: q.clear()          # the list is the caller's
                return r
            enc = lambda v: ("ids", v)
        elif op == "burn":
            # a long history: so many events come and go before all others
            o = object()
            def fn():
                done = 0
                for _ in range(e["k"]):
                    ev = s.schedule(o, self.units(self.now - e["back"]), absolute=True)
                    self.objs.append(None); self.events.append(None)
                    done += next(iter(s.non_blocking())) is o
                return done
            enc = tag
        elif op == "bool": fn = lambda: bool(s); enc = tag
        elif op == "nb":
            def fn():
                if self.nb is None or self.kind % 2: self.nb = iter(s.non_blocking())
                try: return next(self.nb)
                except StopIteration:
                    self.nb = None
                    raise
            enc = self.obj_id
        elif op == "drain":
            fn = lambda: [self.obj_id(x)[1] for x in s.non_blocking()]; enc = lambda v: ("ids", v)
        e = dict(e)
        e["o"] = self.ctx.outcome(fn, enc=enc)
        self.t.append(e)
    def play(self):
        global CUR
        CUR = self
        k = self.kind % 3
        self.s = B.Scheduler(FakeRegulator(self)) if k == 0 else B.Scheduler() if k == 1 and kind_is_real(self.units) else B.Scheduler(regulator=B.SingleThreadedRegulator())
        self.it = iter(self.s)
        while self.i < len(self.script):
            e = self.script[self.i]; self.i += 1
            if e["op"] in ("sleep", "wake", "end"): continue
            if e["op"] == "begin":
                self.t.append({"op": "begin"})
                self.sleeps = 0
                o = self.ctx.outcome(lambda: next(self.it), enc=self.obj_id)
                self.t.append({"op": "end", "o": o})
            else: self.env(e)
        self.t.append({"op": "queue", "o": self.ctx.outcome(lambda: [self.ev_id(x) for x in self.s.queue], enc=lambda v: ("ids", v))})
        CUR = None
        self.ctx.emit(self.t)

def kind_is_int(units): return type(units(1)) is int
def kind_is_real(units): return type(units(1)) is not T

def replay(ctx):
    for i, p in enumerate(json.load(open(ctx.cfg["paths"]))):
        if i % ctx.shards == ctx.shard: Player(ctx, p, i).play()

def long(ctx):
    "ties between events with many other events scheduled in between"
    rng = ctx.rng
    for i in range(8 if not ctx.thorough else 60):
        p = []; n = 0
        gaps = [rng.choice([1, 15, 90, 98, 126, 127, 128, 130, 250, 254, 255, 256, 300, 1000]) for _ in range(10)] + [999, 1024, 32766, 65534, 65536] * (i % 4 == 0)
        rng.shuffle(gaps)
        when = [rng.randrange(1, 4) for _ in range(3)]
        for g in gaps:
            p.append({"op": "sched", "abs": True, "t": rng.choice(when), "p": rng.choice([100, 100, 100, 7])}); n += 1
            if rng.random() < 0.15: p.append({"op": "queue"})
            if rng.random() < 0.1: p.append({"op": "nb"})
            p.append({"op": "burn", "k": g, "back": rng.randrange(1, 9)}); n += g
        p += [{"op": "queue"}, {"op": "adv", "d": 2}, {"op": "drain"}, {"op": "begin"}, {"op": "adv", "d": 5}, {"op": "drain"}, {"op": "bool"}]
        if i % 4: p = p[:-4] + [{"op": "adv", "d": 5}] + [{"op": "nb"}] * 20
        Player(ctx, p, rng.randrange(1000)).play()
    # hundreds of events at once
    for i in range(4 if not ctx.thorough else 20):
        k = rng.choice([30, 90, 300])
        p = [{"op": "sched", "abs": True, "t": rng.randrange(3) // 2, "p": 100} for _ in range(k)] + [{"op": "queue"}]
        p += [{"op": "cancel", "id": rng.randrange(1, k + 1)} for _ in range(8)] + [{"op": "nb"}] * 5 + [{"op": "drain"}, {"op": "adv", "d": 3}, {"op": "drain"}]
        Player(ctx, p, rng.randrange(1000)).play()

def rnd(ctx):
    rng = ctx.rng
    for i in range(120 if not ctx.thorough else 4000):
        p = []; n = 0
        hi = rng.choice([3, 10, 1000, 10**6])
        now = 0
        def env():
            nonlocal n, now
            r = rng.random()
            if r < 0.4 and n < 25:
                n += 1
                t = rng.choice([0, 0, 1, rng.randrange(0, hi), rng.randrange(0, 4), -rng.randrange(0, 5)])
                a = rng.random() < 0.4
                return {"op": "sched", "abs": a, "t": t + (now if a else 0), "p": rng.choice([100, 100, 100, 0, 1, -5, 99, 101, 200])}
            if r < 0.55 and n: return {"op": "cancel", "id": rng.randrange(0, n + 1)}
            if r < 0.65: return {"op": "queue"}
            if r < 0.72: return {"op": "bool"}
            if r < 0.85: return {"op": "nb"}
            if r < 0.88: return {"op": "drain"}
            d = rng.choice([1, 1, 2, rng.randrange(0, hi)])
            now += d
            return {"op": "adv", "d": d}
        for _ in range(rng.randrange(5, 60)):
            r = rng.random()
            if r < 0.2:
                p.append({"op": "begin"})
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    for _ in range(rng.choice([0, 0, 1, 2, 4])): p.append(env())
                    p.append({"op": "wake"})
            else: p.append(env())
        Player(ctx, [x for x in p if x["op"] != "wake"] if rng.random() < 0.2 else p, rng.randrange(1000)).play()
