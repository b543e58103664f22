"""Runs scripts of several threads on one Scheduler(ThreadSafeRegulator()) under controlled interleavings."""
import json, sys, os
import ctlthreads as ct
imp = ct.install()
B = imp("big.scheduler")
FILES = {B.__file__, sys.modules["big.heap"].__file__}
from drvlib import tag

class Run:
    def __init__(self, scen, choose, opcodes):
        self.scen = scen; self.tr = []; self.objs = {}; self.evs = {}
        self.log = self.tr.append
        self.ctl = ct.Controller(choose, self.log, FILES, opcodes)
        self.s = B.Scheduler(B.ThreadSafeRegulator())
        self.k = 0
        self.kk = {}          # (thread, index) -> event number
        n = 0
        for i, t in enumerate(scen):
            for j, e in enumerate(t):
                if e["op"] == "sched": n += 1; self.kk[i, j] = n
        self.total = n
    def enc(self, o):
        for k, x in self.objs.items():
            if x is o: return "obj", k
        return tag(o)
    def call(self, th, e, fn, enc):
        e = dict(e); e["e"] = "call"; e["th"] = th + 1
        self.log(e)
        try:
            v = fn()
            t, v = enc(v)
            o = {"ok": 1, "t": t, "v": v, "exc": ""}
        except ct.Abort: raise
        except BaseException as x:
            o = {"ok": 0, "t": "", "v": 0, "exc": type(x).__name__}
        self.log({"e": "ret", "th": th + 1, "o": o})
        return o
    def thread(self, i):
        s = self.s
        def f():
            for j, e in enumerate(self.scen[i]):
                op = e["op"]
                if op == "sched":
                    k = self.kk[i, j]; o = self.objs[k] = object()
                    def fn():
                        ev = s.schedule(o, float(e["t"]), absolute=e["abs"], priority=e["p"])
                        self.evs[k] = ev
                    self.call(i, dict(e, k=k), fn, tag)
                elif op == "cancel":
                    if e["k"] not in self.evs: continue
                    ev = self.evs[e["k"]]
                    self.call(i, e, (lambda: ev.cancel()) if j % 2 else (lambda: s.cancel(ev)), tag)
                elif op == "next": self.call(i, e, lambda: next(s), self.enc)
                elif op == "all":
                    for _ in range(self.total + 3):
                        if not self.call(i, {"op": "next"}, lambda: next(s), self.enc)["ok"]: break
                elif op == "nb": self.call(i, e, lambda: next(s.non_blocking()), self.enc)
                elif op == "queue":
                    self.call(i, e, lambda: s.queue, lambda q: ("ids", [self.enc(x.event)[1] for x in q]))
                elif op == "bool": self.call(i, e, lambda: bool(s), tag)
                elif op == "wait": ct.sleep(float(e["d"]))
        return f
    def go(self):
        ok = self.ctl.run([self.thread(i) for i in range(len(self.scen))])
        if not ok: return [{"n": len(self.scen)}] + self.tr + [{"e": "stuck"}]
        return [{"n": len(self.scen)}] + self.tr

class Devs:
    "run the current thread until it blocks, except at the given deviations {choice number: offset}"
    def __init__(self, devs): self.devs = devs; self.n = 0; self.log = []
    def __call__(self, ctl, me, c):
        n = self.n; self.n += 1
        self.log.append(len(c))
        base = c.index(me) if me in c else 0
        return c[(base + self.devs.get(n, 0)) % len(c)]
class Rnd:
    def __init__(self, rng, p): self.rng, self.p = rng, p
    def __call__(self, ctl, me, c):
        if me in c and self.rng.random() > self.p: return me
        return self.rng.choice(c)

def S(t, p=100, a=False): return {"op": "sched", "t": t, "p": p, "abs": a}
def C(k): return {"op": "cancel", "k": k}
def O(o): return {"op": o}
def W(d): return {"op": "wait", "d": d}
FIXED = [
    [[S(10), O("next")], [S(5)]],                                   # an earlier event arrives while blocked
    [[S(10), O("next")], [W(1), S(2)]],
    [[S(10), O("next")], [C(1)]],                                   # everything cancelled while blocked
    [[S(10), O("next")], [W(3), C(1)]],
    [[S(10), O("next")], [W(1), O("next")], [W(2), C(1)]],          # two blocked threads, all cancelled
    [[S(4), S(6), O("all")], [O("all")]],                           # two consumers
    [[S(0), S(0), O("nb")], [O("nb"), O("nb")]],
    [[S(3), O("next")], [W(3), C(1)]],                              # cancel races with the yield
    [[S(5), S(5, 1), O("all")], [S(5), C(1)]],
    [[S(8), O("next")], [S(6)], [S(4)], [W(1), O("next")]],
    [[S(8), O("all")], [W(1), S(1), W(3), S(1)], [W(2), C(1)]],
    [[S(2), O("next"), S(1), O("next")], [O("next"), O("queue")]],
    [[S(7), O("next")], [O("bool"), W(3), S(1), O("queue")]],
    [[S(1), C(1), O("bool"), O("next")], [S(1), O("nb"), O("next")]],
]
def scenario(rng):
    if rng.random() < 0.5: return FIXED[rng.randrange(len(FIXED))]
    n = rng.choice([2, 2, 3, 3, 4]); sc = []; k = 0
    for i in range(n):
        t = []
        for _ in range(rng.randrange(1, 5)):
            r = rng.random()
            if r < 0.4: t.append(S(rng.choice([0, 1, 2, 3, 5, 8]), rng.choice([100, 100, 1]), rng.random() < 0.3)); k += 1
            elif r < 0.55 and k: t.append(C(rng.randrange(1, k + 1)))
            elif r < 0.7: t.append(O("next"))
            elif r < 0.78: t.append(O("all"))
            elif r < 0.85: t.append(O("nb"))
            elif r < 0.93: t.append(W(rng.choice([1, 2, 3])))
            else: t.append(O(rng.choice(["queue", "bool"])))
        sc.append(t)
    return sc

class Emitter:
    def __init__(self, ctx): self.ctx = ctx; self.seen = set(); self.runs = 0; self.bad = 0
    def run(self, scen, choose, opcodes):
        r = Run(scen, choose, opcodes).go()
        self.runs += 1
        s = json.dumps(r)
        if s not in self.seen:
            self.seen.add(s); self.ctx.emit(r)
        if r[-1].get("e") in ("stuck", "livelock", "dead"): self.bad += 1
        return self.bad < 20

def systematic(ctx):
    "every schedule with one preemption, of every fixed scenario; two preemptions sampled"
    em = Emitter(ctx); rng = ctx.rng
    for n, scen in enumerate(FIXED):
        for opcodes in ((False, True) if ctx.thorough else (False,)):
            base = Devs({})
            if not em.run(scen, base, opcodes): return
            L = base.log
            one = [{i: o} for i in range(len(L)) for o in range(1, L[i])]
            for d in one:
                if not ctx.mine(): continue
                dv = Devs(d)
                if not em.run(scen, dv, opcodes): return
                # a second deviation after the first
                i0 = max(d)
                for _ in range(3 if not ctx.thorough else 40):
                    if i0 + 1 >= len(dv.log): break
                    i = rng.randrange(i0 + 1, len(dv.log))
                    if dv.log[i] < 2: continue
                    if not em.run(scen, Devs({**d, i: rng.randrange(1, dv.log[i])}), opcodes): return
    open(ctx.cfg["out"] + ".runs", "w").write(str(em.runs))

def rnd(ctx):
    em = Emitter(ctx); rng = ctx.rng
    for _ in range(180 if not ctx.thorough else 3000):
        if ctx_elapsed(ctx) > (60 if not ctx.thorough else 900): break
        scen = scenario(rng)
        for _ in range(8):
            op = rng.random() < 0.4
            if not em.run(scen, Rnd(rng, rng.choice([0.02, 0.05, 0.1, 0.3] if not op else [0.005, 0.02, 0.05])), op): return
    open(ctx.cfg["out"] + ".runs", "w").write(str(em.runs))
T0 = ct.REAL.monotonic()
def ctx_elapsed(ctx): return ct.REAL.monotonic() - T0
