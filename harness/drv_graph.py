import json
from drvlib import tag, outcome
from big.graph import TopologicalSorter

class World:
    def __init__(self, ctx, names, alias=0):
        self.ctx, self.gs, self.vs, self.t = ctx, [], [], [{}]
        self.name = names            # number -> node object
        self.num = {v: k for k, v in names.items()}
        self.alias = alias
        # mirror, used only to choose interesting arguments
        self.nodes, self.edges, self.out, self.dn, self.vg, self.dv, self.isopen = [], [], [], [], [], [], []
    def nums(self, xs):
        return type(xs)(self.num.get(x, -1) for x in xs)
    def do(self, e):
        op, N = e["op"], self.name
        if "g" in e: g = self.gs[e["g"] - 1]
        if "v" in e: v = self.vs[e["v"] - 1]
        enc = tag
        self.alias += 1
        al = self.alias % 2
        if op == "new":
            def fn():
                d = {N[i[0]]: [N[x] for x in i[1:]] for i in e["items"]}
                g = TopologicalSorter(d) if d or al else TopologicalSorter()
                self.gs.append(g); self.vs.append(g)
        elif op == "add": fn = lambda: g.add(N[e["x"]], *[N[x] for x in e["ds"]])
        elif op == "remove": fn = lambda: g.remove(N[e["x"]])
        elif op == "view":
            def fn(): self.vs.append(g.view())
        elif op == "gcopy":
            def fn():
                c = g.copy(); self.gs.append(c); self.vs.append(c)
        elif op == "vcopy":
            def fn():
                w = v if not isinstance(v, TopologicalSorter) else next(x for x in vars(v).values() if isinstance(x, TopologicalSorter.View))
                self.vs.append(w.copy())
        elif op == "ready": fn, enc = (v.get_ready if al and hasattr(v, "get_ready") else v.ready), lambda r: tag(self.nums(r))
        elif op == "done": fn = lambda: v.done(*[N[x] for x in e["ns"]])
        elif op == "reset": fn = lambda: v.reset()
        elif op == "close": fn = lambda: v.close()
        elif op == "cycle": fn, enc = (lambda: g.cycle()), lambda r: tag(None if r is None else self.nums(r))
        elif op == "check": fn = g.prepare if al else g.check_for_cycles
        elif op == "static": fn, enc = (lambda: list(g.static_order())), lambda r: tag(self.nums(r))
        elif op == "len": fn = lambda: len(g)
        n = len(self.vs), len(self.gs)
        o = self.ctx.outcome(fn, enc=enc, timeout=15)
        if op in ("view", "vcopy", "gcopy", "new") and not o["ok"] and len(self.vs) == n[0]:
            pass
        truth = []
        for w in self.vs:
            f = (lambda: w.is_active()) if al and isinstance(w, TopologicalSorter) else (lambda: bool(w))
            b = outcome(f, enc=lambda x: ("s", {True: "1", False: "0"}.get(x, "?")))
            truth.append(b["v"] if b["ok"] else b["exc"])
        ev = dict(e); ev["o"] = o; ev["truth"] = truth
        self.t.append(ev)
        self.mirror(e, o)
        return o
    def mirror(self, e, o):
        op = e["op"]
        if not o["ok"]: return
        if op == "new":
            self.nodes.append(set()); self.edges.append(set())
            for i in e["items"]:
                self.nodes[-1].update(i); self.edges[-1].update((x, i[0]) for x in i[1:])
            self.dv.append(len(self.out)); self.out.append(set()); self.dn.append(set()); self.vg.append(len(self.gs) - 1); self.isopen.append(True)
        elif op == "add":
            self.nodes[e["g"] - 1].update([e["x"]] + e["ds"]); self.edges[e["g"] - 1].update((x, e["x"]) for x in e["ds"])
        elif op == "remove":
            g = e["g"] - 1
            self.nodes[g].discard(e["x"]); self.edges[g] = {q for q in self.edges[g] if e["x"] not in q}
            for i, h in enumerate(self.vg):
                if h == g: self.out[i].discard(e["x"]); self.dn[i].discard(e["x"])
        elif op == "view":
            self.out.append(set()); self.dn.append(set()); self.vg.append(e["g"] - 1); self.isopen.append(True)
        elif op == "vcopy":
            v = e["v"] - 1
            self.out.append(set(self.out[v])); self.dn.append(set(self.dn[v])); self.vg.append(self.vg[v]); self.isopen.append(True)
        elif op == "gcopy":
            g = e["g"] - 1; v = self.dv[g]
            self.nodes.append(set(self.nodes[g])); self.edges.append(set(self.edges[g]))
            self.dv.append(len(self.out)); self.out.append(set(self.out[v])); self.dn.append(set(self.dn[v])); self.vg.append(len(self.nodes) - 1); self.isopen.append(True)
        elif op == "ready":
            if isinstance(o["v"], list): self.out[e["v"] - 1].update(o["v"])
        elif op == "done":
            self.out[e["v"] - 1].difference_update(e["ns"]); self.dn[e["v"] - 1].update(e["ns"])
        elif op == "reset": self.out[e["v"] - 1] = set(); self.dn[e["v"] - 1] = set()
        elif op == "close": self.isopen[e["v"] - 1] = False

class Fresh:
    "equal but different objects each time a node is mentioned"
    def __init__(self, f): self.f, self.n = f, 0
    def __getitem__(self, i):
        self.n += 1
        return self.f(i, self.n)
    def items(self): return [(i, self.f(i, 0)) for i in range(200)]
FRESH = [lambda i, n: "".join(("n", str(i))), lambda i, n: (i, str(i)), lambda i, n: float(i) if n % 2 else i, lambda i, n: i + 10**30,
         lambda i, n: frozenset([i, (i,)])]
def names(k):
    if k % 3 == 2: return Fresh(FRESH[k // 3 % len(FRESH)])
    return [{i: i for i in range(0, 200)}, {i: "n%d" % i for i in range(0, 200)}, {i: (i, "x") for i in range(200)},
            {i: (None if i == 1 else False if i == 2 else "" if i == 3 else i + 10) for i in range(200)}][k % 4]

def replay(ctx):
    for i, p in enumerate(json.load(open(ctx.cfg["paths"]))):
        if i % ctx.shards == ctx.shard:
            w = World(ctx, names(i), i)
            for e in p: w.do(e)
            ctx.emit(w.t)

def reach(edges, a):
    "nodes reachable from a"
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for p, s in edges:
            if p == x and s not in seen: seen.add(s); todo.append(s)
    return seen

MIX = {   # weights
  "C07": dict(add=30, addnode=4, remove=10, ready=25, done=30, baddone=5, reset=2, view=3, static=1, check=1),
  "C08": dict(add=34, addnode=3, remove=12, ready=22, done=22, baddone=4, reset=4, view=2, vcopy=2, gcopy=1, check=1),
  "C09": dict(add=40, addnode=3, remove=14, ready=6, done=6, cycle=12, check=8, static=10, gcopy=2, view=1, reset=1, len=2),
  "C10": dict(add=24, addnode=3, remove=8, ready=18, done=18, baddone=2, reset=5, view=6, vcopy=6, gcopy=8, close=5, check=2, cycle=2, static=2, len=1),
}
def rnd(ctx):
    rng = ctx.rng
    focus = ctx.cfg["focus"]
    mix = MIX[focus]
    for i in range(ctx.cfg["count"]):
        w = World(ctx, names(rng.randrange(60)), rng.randrange(2))
        nn = rng.choice([3, 4, 5, 5, 7, 10, 10, 16, 30])
        node = lambda: rng.randrange(1, nn + 1)
        acyclic = rng.random() < {"C07": 0.93, "C08": 0.85, "C09": 0.3, "C10": 0.8}[focus]
        coherent = rng.random() < {"C07": 0.7, "C08": 0.0, "C09": 0.2, "C10": 0.4}[focus]
        items = []
        if rng.random() < 0.5:
            order = list(range(1, nn + 1)); rng.shuffle(order)
            for k in range(rng.randrange(0, nn + 1)):
                x = order[k]
                items.append([x] + [order[j] for j in range(len(order)) if (j < k or (not acyclic and rng.random() < 0.1)) and rng.random() < 0.3])
        w.do({"op": "new", "items": items})
        ops, wts = zip(*mix.items())
        for _ in range(rng.randrange(15, 70)):
            op = rng.choices(ops, wts)[0]
            g = rng.randrange(len(w.gs)); v = rng.randrange(len(w.vs))
            if not w.isopen[v] and rng.random() < 0.8: continue
            if op in ("view", "vcopy") and (len(w.vs) >= 6): continue
            if op == "gcopy" and len(w.gs) >= 4: continue
            if op == "add":
                x = node()
                ds = [node() for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
                if acyclic:
                    r = reach(w.edges[g], x)
                    ds = [d for d in ds if d not in r]
                if coherent:
                    bad = any(w.vg[k] == g and x in w.out[k] | w.dn[k] for k in range(len(w.vs)))
                    if bad: ds = [d for d in ds if all(w.vg[k] != g or d in w.dn[k] or x not in w.out[k] | w.dn[k] for k in range(len(w.vs)))]
                e = {"op": "add", "g": g + 1, "x": x, "ds": ds}
            elif op == "addnode": e = {"op": "add", "g": g + 1, "x": node(), "ds": []}
            elif op == "remove":
                x = rng.choice(sorted(w.nodes[g])) if w.nodes[g] and rng.random() < 0.9 else node()
                e = {"op": "remove", "g": g + 1, "x": x}
            elif op in ("ready", "reset", "vcopy"):
                e = {"op": op, "v": v + 1}
            elif op == "close":
                if v in w.dv: continue
                e = {"op": op, "v": v + 1}
            elif op == "done":
                out = sorted(w.out[v])
                k = rng.choice([0, 1, 1, 1, 2, 3, 10, 20])
                ns = rng.sample(out, min(k, len(out)))
                if len(ns) > 4 and rng.random() < 0.3: ns += rng.sample(ns, rng.randrange(1, len(ns)))
                if ns and rng.random() < 0.15: ns.append(rng.choice(ns))
                e = {"op": "done", "v": v + 1, "ns": ns}
            elif op == "baddone":
                out = sorted(w.out[v])
                ns = rng.sample(out, min(rng.randrange(3), len(out))) + [node()]
                rng.shuffle(ns)
                e = {"op": "done", "v": v + 1, "ns": ns}
            else: e = {"op": op, "g": g + 1}
            w.do(e)
        if acyclic and rng.random() < 0.7:     # work a view off
            v = rng.randrange(len(w.vs))
            for _ in range(2 * nn):
                o = w.do({"op": "ready", "v": v + 1})
                if not o["ok"]: break
                ns = sorted(w.out[v])
                if not ns: break
                w.do({"op": "done", "v": v + 1, "ns": rng.sample(ns, rng.randrange(1, len(ns) + 1))})
        ctx.emit(w.t)

def big(ctx):
    "larger structured graphs: many paths (the time must stay polynomial), long chains, late repairs"
    rng = ctx.rng
    def layered(width, depth, tail):
        items = []
        for d in range(1, depth):
            for a in range(width):
                items.append([d * width + a] + [(d - 1) * width + b for b in range(width)])
        n = width * depth
        return items, n
    # long cycles, with something that leads into them and out of them
    for n in (60, 650) + ((1200,) if ctx.thorough else ()):
        w = World(ctx, {i: i for i in range(2000)}, rng.randrange(2))
        items = [[i, i - 1] for i in range(1, n)] + [[0, n - 1, n]] + [[n + 1, 5]]
        if rng.random() < 0.5: rng.shuffle(items)
        w.do({"op": "new", "items": items})
        for op in ("cycle", "check"): w.do({"op": op, "g": 1})
        ctx.emit(w.t)
    for width, depth in ((2, 30), (3, 20), (4, 12), (1, 90)):
        for where in ("none", "end", "start", "both"):
            items, n = layered(width, depth, where)
            w = World(ctx, {i: i for i in range(200)}, rng.randrange(2))
            rng.shuffle(items)
            w.do({"op": "new", "items": items})
            for op in ("cycle", "static"): w.do({"op": op, "g": 1})
            if where in ("end", "both"):
                w.do({"op": "add", "g": 1, "x": n, "ds": [n - 1, n + 1]}); w.do({"op": "add", "g": 1, "x": n + 1, "ds": [n]})
            if where in ("start", "both"):
                w.do({"op": "add", "g": 1, "x": 0, "ds": [n + 2]}); w.do({"op": "add", "g": 1, "x": n + 2, "ds": [n + 3]}); w.do({"op": "add", "g": 1, "x": n + 3, "ds": [n + 2]})
            for op in ("cycle", "check", "gcopy", "static"): w.do({"op": op, "g": 1})
            w.do({"op": "check", "g": 2}); w.do({"op": "cycle", "g": 2})
            if where != "none":
                for x in (n, n + 2):
                    if x in w.nodes[0]: w.do({"op": "remove", "g": 1, "x": x})
                for op in ("cycle", "check", "static"): w.do({"op": op, "g": 1})
                w.do({"op": "ready", "v": 1}); w.do({"op": "cycle", "g": 2})
            ctx.emit(w.t)

def wide(ctx):
    "many nodes at once: ready together, done together (some named twice), removed while ready"
    rng = ctx.rng
    for i in range(40 if not ctx.thorough else 600):
        w = World(ctx, names(rng.randrange(60)), rng.randrange(2))
        n = rng.choice([9, 12, 20, 40])
        items = [[x] for x in range(1, n + 1)]
        last = list(range(n + 1, n + 4))
        for x in last: items.append([x] + rng.sample(range(1, n + 1), rng.randrange(1, n + 1)))
        rng.shuffle(items)
        w.do({"op": "new", "items": items})
        for x in rng.sample(range(1, n + 1), rng.randrange(0, 4)): w.do({"op": "remove", "g": 1, "x": x})
        o = w.do({"op": "ready", "v": 1})
        for x in rng.sample(range(1, n + 1), rng.randrange(0, 3)): w.do({"op": "remove", "g": 1, "x": x})
        for _ in range(12):
            out = sorted(w.out[0])
            if not out: break
            ns = rng.sample(out, rng.randrange(1, len(out) + 1))
            ns += rng.sample(ns, rng.randrange(0, len(ns) + 1))
            w.do({"op": "done", "v": 1, "ns": ns})
            w.do({"op": "ready", "v": 1})
        if rng.random() < 0.5:
            w.do({"op": "reset", "v": 1}); w.do({"op": "ready", "v": 1})
        ctx.emit(w.t)
