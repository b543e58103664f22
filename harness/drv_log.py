import json, io, contextlib
from drvlib import tag, outcome, cps
from big.log import Log
G = 10**9
def split(t):
    if type(t) is not int: return ["?", repr(t)]
    return list(divmod(t, G)) if abs(t) < 2**30 * G else ["?", str(t)]

def play(ctx, path, k):
    t = [{}]
    base = [12345678901234567890, 0, -7 * G, 98 * G + 7][k % 4]
    now = [base]
    log = [None]
    for e in path:
        op = e["op"]
        s = "".join(map(chr, e.get("x", [])))
        if op == "new":
            class Clock:                     # (a clock may be any callable, of any truth value)
                def __call__(self): return now[0]
                def __len__(self): return 0
            def fn(): log[0] = Log(clock=Clock() if k % 3 == 1 else lambda: now[0])
        elif op == "tick":
            def fn(): now[0] += e["dt"][0] * G + e["dt"][1]
        elif op == "log": fn = lambda: log[0](s)
        elif op == "enter": fn = lambda: log[0].enter(s)
        elif op == "exit": fn = lambda: log[0].exit()
        elif op == "reset": fn = lambda: log[0].reset()
        elif op == "iterlog":
            # iterating while the body of the loop logs (at most so many times)
            def fn():
                out, n = [], 0
                for a, b, c, d in log[0]:
                    out.append([split(a), split(b), cps(c), d])
                    if n < e["n"]:
                        n += 1
                        log[0](s)
                return out
        elif op == "print":
            def fn():
                kw = dict(title="".join(map(chr, e["title"])) if e["title"] else None, headings=bool(e["headings"]),
                          indent=e["indent"], seconds_width=e["sw"], fractional_width=e["fw"])
                DEF = dict(title="[event log]", headings=True, indent=2, seconds_width=2, fractional_width=9)
                if (k + len(t)) % 2: kw = {x: v for x, v in kw.items() if v != DEF[x]}
                if e["dflt"]:
                    f = io.StringIO()
                    with contextlib.redirect_stdout(f): log[0].print(**kw)
                    return f.getvalue().split("\n")[:-1]
                lines = []
                def pr(*a): lines.append(" ".join(map(str, a)))
                class Sink(list):
                    def __call__(self, x): self.append(x)
                if k % 4 == 1: pr = lines = Sink()
                log[0].print(print=pr, **kw)
                return list(lines)
        o = ctx.outcome(fn, enc=(lambda v: ("lines", [cps(x) for x in v])) if op == "print" else (lambda v: ("l", v)) if op == "iterlog" else tag)
        l = outcome(lambda: list(log[0]), enc=lambda v: ("l", [[split(a), split(b), cps(c), d] for a, b, c, d in v]))
        e = dict(e); e["o"] = o; e["list"] = l
        t.append(e)
    ctx.emit(t)

def replay(ctx):
    for i, p in enumerate(json.load(open(ctx.cfg["paths"]))):
        if i % ctx.shards == ctx.shard: play(ctx, p, i)

def rnd(ctx):
    rng = ctx.rng
    for i in range(60 if not ctx.thorough else 1500):
        p = [{"op": "new"}]
        d = 0
        for _ in range(rng.randrange(3, 30)):
            r = rng.random()
            name = [rng.choice([97, 98, 32, 0x20ac, 9]) for _ in range(rng.randrange(0, 14))]
            if r < 0.35: p.append({"op": "tick", "dt": [rng.choice([0, 0, 0, 1, 2, 59, 60, 61, 3600, 100000, rng.choice([10**7, 10**8])]),
                              rng.choice([0, 1, 9, 10**8, 99999999, 10**9 - 1, 5 * 10**8, rng.randrange(10**9)])]})
            elif r < 0.55: p.append({"op": "log", "x": name})
            elif r < 0.68: p.append({"op": "enter", "x": name})
            elif r < 0.81: p.append({"op": "exit"})
            elif r < 0.88 and rng.random() < 0.3: p.append({"op": "iterlog", "x": name, "n": rng.choice([0, 1, 2, 5])})
            elif r < 0.83: p.append({"op": "reset"})
            else: p.append({"op": "print", "title": rng.choice([[], [91, 120, 93], [65], [ord(x) for x in "[event log]"], [ord(x) for x in "[event log]"]]), "headings": rng.randrange(2),
                            "indent": rng.choice([0, 1, 2, 2, 4]), "sw": rng.choice([0, 1, 2, 2, 3, 6]), "fw": rng.choice([9, 9, 9, 8, 6, 3, 1, 0]),
                            "dflt": rng.randrange(2)})
        play(ctx, p, rng.randrange(8))
def bulk(ctx):
    "long names, deep nesting, many events, much time"
    rng = ctx.rng
    for i in range(8 if not ctx.thorough else 100):
        p = [{"op": "new"}]
        d = 0
        deep = rng.random() < 0.5
        for _ in range(rng.choice([40, 90])):
            r = rng.random()
            name = [rng.choice([97, 98, 32]) for _ in range(rng.choice([1, 3, 12] if rng.random() < 0.9 else [60, 130, 300]))]
            if r < 0.3: p.append({"op": "tick", "dt": [rng.choice([0, 1, 59, 100000, 10**7]), rng.randrange(10**9)]})
            elif r < 0.5: p.append({"op": "log", "x": name})
            elif r < (0.9 if deep else 0.7): p.append({"op": "enter", "x": name}); d += 1
            elif d: p.append({"op": "exit"}); d -= 1
        p.append({"op": "print", "title": [], "headings": 1, "indent": rng.choice([0, 1, 2, 40]), "sw": rng.choice([2, 12]), "fw": 9, "dflt": 0})
        if rng.random() < 0.5: p += [{"op": "exit"}] * d
        p.append({"op": "print", "title": [65] * 200, "headings": 1, "indent": 2, "sw": 2, "fw": rng.choice([9, 3]), "dflt": 1})
        play(ctx, p, rng.randrange(8))
