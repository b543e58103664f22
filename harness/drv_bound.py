"Bound inner classes: runs programs enumerated by the specification."
import json, gc, weakref, random, copy
from drvlib import CaseTimeout
from big.boundinnerclass import BoundInnerClass, UnboundInnerClass

# how class number n is called
SCHEMES = ["N%d", "_N%d", "n%d_", "Ñ%d", "N%d__x", "Base%d"]
DOCS = ["'the docs of %d'", "'  docs\\n    of %d\\n\\n    '", "", "''", "'%%d of %d'"]
def source(prog, flavor, scheme="N%d", docs=0):
    "Python source of a program; class c is called N<name>"
    ind = "    "
    def path(c): return scheme % prog[c - 1]["name"]
    def decorated(c): return prog[c - 1]["kind"] in ("bound", "unbound")
    out = []
    def emit(c, depth):
        d = prog[c - 1]
        pad = ind * depth
        bases = []
        for b in d["bases"]:
            bd = prog[b - 1]
            if bd["cont"] == 0: bases.append(path(b))
            elif bd["cont"] == d["cont"]: bases.append(path(b) + (".cls" if decorated(b) else ""))
            else: bases.append(path(bd["cont"]) + "." + path(b))
        if d["kind"] == "bound": out.append(pad + "@BoundInnerClass")
        if d["kind"] == "unbound": out.append(pad + "@UnboundInnerClass")
        if flavor == 7: bases.append("metaclass=FALSY")
        out.append(pad + "class %s(%s):" % (path(c), ", ".join(bases)))
        doc = DOCS[(c * docs) % len(DOCS)]
        if doc: out.append(pad + ind + (doc % c if "%d" in doc else doc))
        out.append(pad + ind + "ID = %d" % c)
        if c % 2: out.append(pad + ind + "x%d: int = 3" % c)
        if d["init"]:
            if d["kind"] in ("bound", "taker"):
                out.append(pad + ind + "def __init__(self, outer, *a, **k):")
                out.append(pad + ind * 2 + "LOG(%d, outer, a, k)" % c)
                out.append(pad + ind * 2 + ("super().__init__(outer)" if d["byhand"] else "super().__init__()"))
            else:
                out.append(pad + ind + "def __init__(self, *a, **k):")
                out.append(pad + ind * 2 + "LOG(%d, None, a, k)" % c)
                out.append(pad + ind * 2 + "super().__init__()")
        if d["cont"] == 0:
            if flavor == 1: out.append(pad + ind + "def __bool__(self): return False")
            if flavor == 2: out.append(pad + ind + "def __eq__(self, o): return True\n" + pad + ind + "__hash__ = None")
            if flavor == 3: out.append(pad + ind + "def __getattr__(self, n): raise AttributeError(n)")
            if flavor == 4: out.append(pad + ind + "def __eq__(self, o): return True\n" + pad + ind + "def __hash__(self): return 5")
            if flavor == 8: out.append(pad + ind + "object = object")
        for x in range(1, len(prog) + 1):
            if prog[x - 1]["cont"] == c:
                emit(x, depth + 1)
                out.append(pad + ind + "alias%d = %s" % (prog[x - 1]["name"], path(x)))
        if flavor == 5 and d["kind"] in ("plain", "taker"): out.append(pad + ind + "def __repr__(self): return 'custom'")
    for c in sorted(range(1, len(prog) + 1), key=lambda c: (c != 2, c)):      # (the mixin 2 first)
        if prog[c - 1]["cont"] == 0: emit(c, 0)
    return "\n".join(out)

class FALSY(type):
    "classes that are false, have no length, and are equal to nothing in particular"
    def __bool__(cls): return False
    def __len__(cls): return 0
    def __hash__(cls): return 3

class World:
    def __init__(self, prog, flavor, scheme="N%d", docs=0):
        self.prog = prog
        self.scheme = scheme
        self.ns = {"BoundInnerClass": BoundInnerClass, "UnboundInnerClass": UnboundInnerClass, "LOG": self.log, "__name__": "prog", "FALSY": FALSY}
        exec(source(prog, flavor, scheme, docs), self.ns)
        if flavor == 6:                # as if each came from a function that returns a class
            for c in range(1, len(prog) + 1):
                x = self.find(c)
                x.__qualname__ = x.__name__
        self.inst = {}
        self.classes = []          # the classes seen, kept alive: their numbers
        self.calls = []
        self.ev = []
    def log(self, c, outer, a, k):
        o = 0 if outer is None else next((i for i, x in self.inst.items() if x is outer), -1)
        f = 1 if (a == (7, "x") and k == {"z": 8}) else 0 if not a and not k else -1
        self.calls.append([c, o, f])
    def num(self, cls):
        for i, c in enumerate(self.classes):
            if c is cls: return i + 1
        self.classes.append(cls)
        return len(self.classes)
    def look(self, cls):
        "is this attribute the same as that of the class as written?"
        u = self.find(cls.ID)
        r = [int(getattr(cls, a, "?") == getattr(u, a, "?")) for a in ("__name__", "__qualname__", "__module__", "__doc__")]
        return r + [int(getattr(cls, "__annotations__", {}) == getattr(u, "__annotations__", {}))]
    def takes(self, cls): return any(self.prog[c.ID - 1]["init"] for c in cls.__mro__ if c is not object)
    def mro(self, cls): return [self.num(c) for c in cls.__mro__ if c is not object]
    def find(self, c):
        "class c as written"
        d = self.prog[c - 1]
        if d["cont"] == 0: return self.ns[self.scheme % d["name"]]
        x = self.find(d["cont"]).__dict__[self.scheme % d["name"]]
        return x.cls if d["kind"] in ("bound", "unbound") else x
    def do(self, e):
        e = dict(e); op = e["op"]
        self.calls = []
        e["exc"] = ""; e["mro"] = []; e["calls"] = []; e["look"] = []; e["repr"] = ""; e["own"] = 0
        try:
            def see(cls):
                e["look"] = self.look(cls)
                return self.mro(cls)
            if op == "new":
                cls = self.find(e["c"])
                o = cls(7, "x", z=8) if e["args"] else cls()
                self.inst[len(self.ev_inst) + 1] = o; self.ev_inst.append(1)
                e["mro"] = self.mro(type(o))
            elif op == "get": e["mro"] = see(getattr(self.inst[e["i"]], self.scheme % e["name"]))
            elif op == "alias": e["mro"] = see(getattr(self.inst[e["i"]], "alias%d" % e["name"]))
            elif op == "super": e["mro"] = see(getattr(super(self.find(e["c"]), self.inst[e["i"]]), self.scheme % e["name"]))
            elif op == "class":
                cls = type(self.inst[e["i"]]) if e["i"] else self.find(e["c"])
                e["mro"] = self.mro(getattr(cls, self.scheme % e["name"]))
            elif op == "make":
                cls = getattr(self.inst[e["i"]], self.scheme % e["name"])
                o = cls(7, "x", z=8) if self.takes(cls) else cls()
                self.inst[len(self.ev_inst) + 1] = o; self.ev_inst.append(1)
                e["mro"] = see(type(o))
                t = repr(o)
                e["own"] = int(self.find(cls.ID).__repr__ is not object.__repr__)
                e["repr"] = "custom" if t == "custom" else "bound" if (" object bound to " + repr(self.inst[e["i"]]) + " at 0x") in t and t.startswith("<prog." + self.scheme % e["name"] + " ") else "other"
            elif op == "child":
                cls = getattr(self.inst[e["i"]], self.scheme % e["name"])
                if e["own"]:
                    class K(cls):
                        def __init__(self, *a, **k): super().__init__(*a, **k)
                else:
                    class K(cls): pass
                k = K(7, "x", z=8) if self.takes(cls) else K()
                repr(k)
                e["mro"] = self.mro(K)[1:] if 0 else [self.num(c) for c in K.__mro__[1:] if c is not object]
            elif op == "copy":
                self.inst[len(self.ev_inst) + 1] = copy.copy(self.inst[e["i"]]); self.ev_inst.append(1)
            elif op == "del":
                r = weakref.ref(self.inst.pop(e["i"]))
                e["dead"] = 1
                if r() is not None:
                    gc.collect()
                    e["dead"] = int(r() is None)
        except CaseTimeout: raise
        except Exception as x: e["exc"] = type(x).__name__
        e["calls"] = self.calls
        self.ev.append(e)
        return e
    ev_inst = ()

from bound_progs import mro, names, chain_ok, random_program
def history(ctx, rng, prog, script=None, length=14, flavor=0, names_too=True):
    w = World(prog, flavor, *((rng.choice(SCHEMES), rng.randrange(5)) if names_too else ()))
    w.ev_inst = []
    cls_of = {}
    shown = [dict(c) for c in prog]
    def do(e):
        r = w.do(e)
        if e["op"] == "new": cls_of[len(w.ev_inst)] = e["c"]
        elif e["op"] == "make" and not r["exc"]: cls_of[len(w.ev_inst)] = names(prog, cls_of[e["i"]])[e["name"]]
        elif e["op"] == "copy": cls_of[len(w.ev_inst)] = cls_of[e["i"]]
        return not r["exc"]
    if script is not None:
        for e in script:
            if not do(e): break
    else:
        outers = [c for c, d in enumerate(prog, 1) if d["cont"] == 0 and c != 2]
        for c in [rng.choice(outers) for _ in range(rng.randrange(1, 3))]: do({"op": "new", "c": c, "args": 0})
        for _ in range(length):
            live = [i for i in w.inst]
            if not live: break
            i = rng.choice(live)
            ns = names(prog, cls_of[i])
            r = rng.random()
            if r < 0.06: e = {"op": "new", "c": rng.choice(outers), "args": 0}
            elif r < 0.12 and len(live) > 1: e = {"op": "del", "i": i}
            elif not ns: continue
            else:
                n = rng.choice(list(ns))
                k = rng.random()
                if k < 0.35: e = {"op": "get", "i": i, "name": n}
                elif k < 0.47: e = {"op": "alias", "i": i, "name": n}
                elif k < 0.57:
                    m = mro(prog, cls_of[i]); c = rng.choice(m)
                    rest = {}
                    for z in m[m.index(c) + 1:]:
                        for x, d in enumerate(prog, 1):
                            if d["cont"] == z: rest.setdefault(d["name"], x)
                    if n not in rest: continue
                    e = {"op": "super", "i": i, "c": c, "name": n}
                elif k < 0.65: e = {"op": "class", "i": i, "c": 0, "name": n}
                else:
                    if not chain_ok(prog, ns, ns[n]): continue
                    e = {"op": "make", "i": i, "name": n} if k < 0.88 else {"op": "child", "i": i, "name": n, "own": rng.randrange(2)}
            if not do(e): break
        for i in list(w.inst):
            if rng.random() < 0.5: do({"op": "del", "i": i})
    for e in w.ev:
        e.setdefault("name", 0); e.setdefault("i", 0); e.setdefault("c", 0); e.setdefault("dead", 0)
    ctx.emit([{"prog": shown}] + w.ev)

def replay(ctx):
    import itertools
    rng = ctx.rng
    progs = json.load(open(ctx.cfg["progs"]))
    for n, p in enumerate(progs):
        if not ctx.mine(): continue
        prog = p["prog"]
        if p.get("cover"):
            # an instance of each inner class, derived classes first
            for c in (1, 3):
                ns = names(prog, c)
                o = sorted(ns, reverse=True)
                s = [{"op": "new", "c": c, "args": 0}]
                for k in o: s.append({"op": "make" if chain_ok(prog, ns, ns[k]) else "get", "i": 1, "name": k})
                history(ctx, rng, prog, s, flavor=rng.randrange(9))
            continue
        # every order of first touching the inner classes of one instance
        c = rng.choice([1, 3])
        ns = [k for k, x in names(prog, c).items()]
        perms = list(itertools.permutations(ns))
        for perm in rng.sample(perms, min(len(perms), 3)):
            s = [{"op": "new", "c": c, "args": 0}]
            for k in perm: s.append({"op": "make" if chain_ok(prog, names(prog, c), names(prog, c)[k]) and rng.random() < 0.7 else "get", "i": 1, "name": k})
            for k in ns: s.append({"op": "get", "i": 1, "name": k})
            history(ctx, rng, prog, s, flavor=rng.randrange(9))
        for _ in range(2): history(ctx, rng, prog, flavor=rng.randrange(9))

def bigger(ctx):
    "random programs with more classes"
    import itertools
    rng = ctx.rng
    for n in range(ctx.cfg["n"]):
        prog = random_program(rng)
        if not ctx.mine(): continue
        outers = [c for c, d in enumerate(prog, 1) if d["cont"] == 0 and c != 2]
        for c in outers:
            ns = names(prog, c)
            o = list(ns); rng.shuffle(o)
            s = [{"op": "new", "c": c, "args": 0}]
            for k in o: s.append({"op": rng.choice(["make", "make", "child"]) if chain_ok(prog, ns, ns[k]) else "get", "i": 1, "name": k, "own": 0})
            # the overridden ones, as super() sees them
            m = mro(prog, c)
            ups = []
            for z in range(len(m) - 1):
                for k in o:
                    if any(d["cont"] in m[z + 1:] and d["name"] == k for d in prog): ups.append({"op": "super", "i": 1, "c": m[z], "name": k})
            rng.shuffle(ups)
            s += ups[:6]
            for k in o: s.append({"op": "get", "i": 1, "name": k})
            history(ctx, rng, prog, s, flavor=rng.randrange(9))
        history(ctx, rng, prog, flavor=rng.randrange(9), length=20)

def copies(ctx):
    C = lambda name, cont, bases, kind, init: dict(name=name, cont=cont, bases=bases, kind=kind, init=init, byhand=0)
    prog = [C(1, 0, [], "plain", 0), C(2, 1, [], "bound", 1)]
    history(ctx, ctx.rng, prog, [{"op": "new", "c": 1, "args": 0}, {"op": "copy", "i": 1}, {"op": "make", "i": 2, "name": 2}, {"op": "get", "i": 1, "name": 2}], names_too=False)
    history(ctx, ctx.rng, prog, [{"op": "new", "c": 1, "args": 0}, {"op": "get", "i": 1, "name": 2}, {"op": "copy", "i": 1}, {"op": "make", "i": 2, "name": 2}], names_too=False)
