"""Drives big.heap.Heap.  Records; does not judge."""
import random, functools
from drvlib import tag, outcome
from big.heap import Heap

N = 9999
def noneI(x): return None if x == N else x

@functools.total_ordering
class Less:
    "a value that offers only comparisons"
    def __init__(self, x): self.x = x
    def __lt__(self, o): return self.x < o.x
    def __eq__(self, o): return isinstance(o, Less) and self.x == o.x
    __hash__ = None
class Falsy(Less):
    def __bool__(self): return False
KINDS = [(lambda x: x, lambda v: v), (Less, lambda v: v.x if isinstance(v, Less) else v), (lambda x: (x, "x"), lambda v: v[0] if type(v) is tuple else v),
         (Falsy, lambda v: v.x if isinstance(v, Less) else v), (lambda x: x / 2, lambda v: int(v * 2) if type(v) is float else v),
         (lambda x: [x, None][:1], lambda v: v[0] if type(v) is list else v),
         (lambda x: chr(x + 5000), lambda v: ord(v) - 5000 if type(v) is str else v)]

class Opaque: pass
FOREIGN = {"none": None, "obj": Opaque(), "type": int, "complex": 1j, "set": frozenset([7])}   # values that can't be ordered

class World:
    def __init__(self, ctx, kind=0):
        self.ctx = ctx
        self.kind = kind % len(KINDS)
        self.W, self.U = KINDS[self.kind]
        self.hs = []
        self.its = []
        self.t = [{}]
    def qs(self):
        r = outcome(lambda: [[self.U(x) for x in h.queue] for h in self.hs], enc=lambda v: ("q", v))
        return r
    def do(self, e):
        op = e["op"]
        W, U = self.W, self.U
        def unw(v): return [U(x) for x in v] if type(v) is list and op in ("queue", "list", "slice") else U(v) if op in ("next", "index", "popleft", "append_and_popleft", "popleft_and_append") else v
        if op == "new":
            xs = [W(x) for x in e["xs"]]
            mk = {"list": list, "tuple": tuple, "gen": lambda x: (y for y in x), "iter": iter, "none": lambda x: None,
                  "heap": lambda x: Heap(list(x))}[e.get("kind", "list")]
            def fn():
                self.hs.append(Heap(mk(xs)) if e.get("kind") != "noarg" else Heap())
        elif op == "iter":
            h = self.hs[e["h"] - 1]
            def fn(): self.its.append(iter(h))
        elif op == "copy":
            h = self.hs[e["h"] - 1]
            def fn():
                c = h.copy()
                if not isinstance(c, Heap): raise AssertionError
                self.hs.append(c)
        elif op == "iteriter":
            it = self.its[e["k"] - 1]
            def fn(): return iter(it) is it
        elif op == "next":
            it = self.its[e["k"] - 1]
            def fn(): return next(it)
        else:
            h = self.hs[e["h"] - 1]
            if op == "append": fn = lambda: h.append(W(e["x"]))
            elif op == "extend":
                def fn(): return h.extend({0: list, 1: tuple, 2: (lambda v: (y for y in v)), 3: iter}[len(self.t) % 4]([W(x) for x in e["xs"]]))
            elif op == "extendraise":
                def gen():
                    yield from [W(x) for x in e["xs"]]
                    1 / 0
                fn = lambda: h.extend(gen())
            elif op == "remove": fn = lambda: h.remove(W(e["x"]))
            elif op == "popleft": fn = lambda: h.popleft()
            elif op == "append_and_popleft": fn = lambda: h.append_and_popleft(W(e["x"]))
            elif op == "popleft_and_append": fn = lambda: h.popleft_and_append(W(e["x"]))
            elif op == "clear": fn = lambda: h.clear()
            elif op == "index": fn = lambda: h[e["i"]]
            elif op == "slice": fn = lambda: h[noneI(e["a"]):noneI(e["b"]):noneI(e["c"])]
            elif op == "badindex": fn = lambda: h[{"f": 1.0, "s": "0", "n": None, "t": (0,), "z": 0.0, "m": -1.0}[e["kind"]]]
            elif op == "contains": fn = lambda: W(e["x"]) in h
            elif op == "cforeign": fn = lambda: FOREIGN[e["kind"]] in h
            elif op == "rforeign": fn = lambda: h.remove(FOREIGN[e["kind"]])
            elif op == "len": fn = lambda: len(h)
            elif op == "bool": fn = lambda: bool(h)
            elif op == "queue": fn = lambda: h.queue
            elif op == "list": fn = lambda: list(h)
            elif op == "eq": fn = lambda: h == self.hs[e["g"] - 1]
            elif op == "ne": fn = lambda: h != self.hs[e["g"] - 1]
            elif op == "eqother": fn = lambda: h == h.queue
            elif op == "repr":
                def fn():
                    import re
                    return int(re.search(r"len=(\d+)", repr(h)).group(1))
                e = dict(e)
            else: raise SystemExit("unknown op " + op)
        o = self.ctx.outcome(fn, enc=(lambda v: ("reprlen", v)) if op == "repr" else lambda v: tag(unw(v)))
        if o["exc"] == "" and op == "new" and False: pass
        ev = dict(e); ev["o"] = o; ev["qs"] = self.qs()
        ev.pop("_", None)
        self.t.append(ev)
        return o

def replay(ctx):
    "walks of the specification's state graph: the calls only; each starts with one empty heap"
    import json
    paths = json.load(open(ctx.cfg["paths"]))
    for i, p in enumerate(paths):
        if i % ctx.shards != ctx.shard: continue
        w = World(ctx, i)
        w.do({"op": "new", "xs": [], "kind": ["list", "tuple", "gen", "none"][i % 4]})
        for e in p:
            w.do(e)
        ctx.emit(w.t)

def rnd(ctx):
    rng = ctx.rng
    n = (60 if not ctx.thorough else 1500)
    focus = ctx.cfg.get("focus", "")
    for i in range(n):
        w = World(ctx, i)
        big = rng.random() < 0.5
        vals = rng.choice([range(-1, 3), range(-30, 30), range(0, 6)])
        v = lambda: rng.choice(vals)
        vs = lambda k: [v() for _ in range(rng.randrange(k))]
        for _ in range(rng.choice([1, 1, 2])):
            w.do({"op": "new", "xs": vs(26 if big else 6), "kind": rng.choice(["list", "tuple", "gen", "iter", "heap"])})
        for _ in range(rng.randrange(20, 70)):
            h = rng.randrange(len(w.hs)) + 1
            L = len(w.hs[h - 1])
            ix = lambda: rng.choice([N, rng.randint(-L - 3, L + 3), rng.randint(-12, 12), 0, L, -L, L - 1, -L + 1])
            ops = ["append", "append", "append_and_popleft", "popleft_and_append", "remove", "popleft", "extend", "extendraise",
                   "index", "index", "index", "slice", "slice", "slice", "contains", "len", "bool", "list", "eq", "ne", "badindex", "eqother", "repr", "cforeign", "rforeign"]
            if focus == "iter":
                ops = ["append", "append_and_popleft", "popleft_and_append", "remove", "popleft", "extend", "extendraise",
                       "index", "slice", "contains", "list", "len"] + ["next"] * 12 + ["iteriter"] + ["iter"] * 3
            if rng.random() < 0.03: ops = ["clear"]
            elif rng.random() < 0.03 and len(w.hs) < 5: ops = ["copy", "new"]
            elif rng.random() < 0.1 and len(w.its) < 6: ops = ["iter"]
            elif rng.random() < 0.1 and w.its: ops = ["next"]
            op = rng.choice(ops)
            if op in ("next", "iteriter") and not w.its: op = "iter"
            if op == "iter" and len(w.its) > 8: continue
            e = {"op": op, "h": h}
            if op in ("append", "append_and_popleft", "popleft_and_append", "contains"): e["x"] = v()
            elif op == "remove": e["x"] = w.U(rng.choice(w.hs[h - 1].queue)) if L and rng.random() < 0.7 else v()
            elif op in ("extend", "extendraise", "new"): e["xs"] = vs(8)
            elif op == "index":
                i = ix(); e["i"] = 0 if i == N else i
            elif op == "slice": e["a"], e["b"], e["c"] = ix(), ix(), rng.choice([N, N, N, 1, 1, 2, -1, -2, 3, 0])
            elif op in ("eq", "ne"):
                e["g"] = rng.randrange(len(w.hs)) + 1
                if rng.random() < 0.5 and len(w.hs) < 6:
                    # a heap with the same values (or nearly), put together in another order
                    xs = [w.U(x) for x in w.hs[h - 1].queue]
                    rng.shuffle(xs)
                    if rng.random() < 0.3: xs = xs[1:] if xs and rng.random() < 0.5 else xs + [v()]
                    w.do({"op": "new", "xs": xs[:len(xs) // 2], "kind": "list"})
                    e["g"] = len(w.hs)
                    for x in xs[len(xs) // 2:]: w.do({"op": "append", "h": e["g"], "x": x})
                    if rng.random() < 0.5: e["h"], e["g"] = e["g"], e["h"]
            elif op in ("cforeign", "rforeign"): e["kind"] = rng.choice(sorted(FOREIGN))
            elif op == "badindex": e["kind"] = rng.choice("fsntzm")
            elif op in ("next", "iteriter"): e["k"] = (len(w.its) if rng.random() < 0.5 else rng.randrange(len(w.its)) + 1)
            w.do(e)
        ctx.emit(w.t)

def shapes(ctx):
    "every shape matters: put heaps of distinct values together, take values out of the middle, then read and drain them"
    rng = ctx.rng
    for i in range(120 if not ctx.thorough else 3000):
        w = World(ctx, i)
        n = rng.choice([3, 7, 8, 12, 15, 16, 20, 31, 40])
        vals = rng.sample(range(2000), n) if rng.random() < 0.8 else [rng.randrange(n // 2 + 1) for _ in range(n)]
        k = rng.choice([0, 0, n, n // 2])
        # a heap in an unbalanced order: one branch holds small values, the other large ones
        if rng.random() < 0.6 and k == n:
            s = sorted(vals); a = [0] * n
            def fill(pos, lo):
                if pos >= n: return lo
                a[pos] = s[lo]; lo += 1
                first, second = (2 * pos + 1, 2 * pos + 2) if rng.random() < 0.5 else (2 * pos + 2, 2 * pos + 1)
                return fill(second, fill(first, lo))
            fill(0, 0); vals = a
        w.do({"op": "new", "xs": vals[:k], "kind": "list"})
        for x in vals[k:]: w.do({"op": "append", "h": 1, "x": x})
        def out(m):
            for _ in range(m):
                q = w.hs[0].queue
                if q: w.do({"op": "remove", "h": 1, "x": w.U(rng.choice(q))})
        out(rng.choice([1, 1, 2, 4]))
        for _ in range(rng.randrange(3)):
            if rng.random() < 0.5: w.do({"op": "append_and_popleft" if rng.random() < 0.5 else "popleft_and_append", "h": 1, "x": rng.randrange(2000)})
            else: w.do({"op": "extend", "h": 1, "xs": [rng.randrange(2000) for _ in range(rng.randrange(6))]})
            out(rng.randrange(2))
        L = len(w.hs[0])
        for _ in range(6):
            a = rng.choice([N, rng.randint(-L - 3, L + 20), rng.randint(0, 40)])
            b = rng.choice([N, rng.randint(-L - 3, L + 20), a if a == N else a + rng.choice([1, 1, 2, 9])])
            w.do({"op": "slice", "h": 1, "a": a, "b": b, "c": rng.choice([N, N, 1, 2, -1])})
            w.do({"op": "index", "h": 1, "i": rng.randint(-L - 2, L + 2)})
        w.do({"op": "list", "h": 1})
        for _ in range(L + 1): w.do({"op": "popleft", "h": 1})
        ctx.emit(w.t)
