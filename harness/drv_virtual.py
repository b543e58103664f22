"pure_virtual: programs of classes, and calls of the method however it is reached"
import abc, functools, inspect, json
from drvlib import tag
import big.builtin as B
import big.state as S
class Meta(type): pass
def functions(name, ran, c):
    "functions of many shapes that note that their body ran"
    def f0(self, *args, **kwargs):
        "Notes that it ran."
        ran.append(c); return "body"
    def f1(self):
        ran.append(c)
    def f2(self, a, b=2, *rest, key: int = 3, **kw) -> str:
        """A longer
        documentation."""
        ran.append(c); return "body"
    def f3(self, a: "int", /, b=None, *, key):
        ran.append(c); raise KeyError(a)
    def f4(self, *args, **kwargs):
        "A generator."
        ran.append(c); yield 1
    async def f5(self, *args, **kwargs):
        ran.append(c)
    f6 = lambda self, x=(), **kwargs: ran.append(c)
    @functools.wraps(f2)
    def f7(self, *args, **kwargs):
        ran.append(c); return f2(self, *args, **kwargs)
    return [f0, f1, f2, f3, f4, f5, f6, f7]
def doc(x): return [ord(ch) for ch in x.__doc__] if x.__doc__ is not None else [-1]
def meta(x): return {"name": x.__name__, "doc": doc(x), "sig": str(inspect.signature(x))}
def show(a, k): return repr((a, sorted(k.items(), key=lambda i: i[0])))
def build(ctx, prog, name, ran):
    rng = ctx.rng
    top = rng.choice([object, object, object, abc.ABC, dict, Exception])
    mt = rng.choice([type, type, Meta]) if top is not abc.ABC else abc.ABCMeta
    slots = rng.random() < 0.2
    cs = []
    for i, p in enumerate(prog):
        c = i + 1; ns = {}
        cell = []
        if p["m"] in ("pure", "both"):
            f = rng.choice(functions(name, ran, c))
            if p["m"] == "both":
                def f(self, *args, c=c, cell=cell, **kwargs):
                    "Calls the inherited method."
                    ran.append(c); return getattr(super(cell[0], self), name)(*args, **kwargs)
            if rng.random() < 0.5: f.__name__ = name
            want = meta(f)
            x = B.pure_virtual()(f)
            if rng.random() < 0.3: ctx.case({"fn": "meta", "want": want}, lambda: x, lambda v: ("meta", meta(v)))
            ns[name] = x
        elif p["m"] == "conc":
            def f(self, *args, c=c, **kwargs):
                ran.append(c); return show(args, kwargs)
            ns[name] = f
        elif p["m"] == "super":
            def f(self, *args, c=c, cell=cell, **kwargs):
                ran.append(c); return getattr(super(cell[0], self), name)(*args, **kwargs)
            ns[name] = f
        if slots: ns["__slots__"] = ("__weakref__",) if top is object and not p["bases"] and len([q for q in prog if not q["bases"]]) == 1 else ()
        C = mt("C%d" % c, tuple(cs[b - 1] for b in p["bases"]) or (top,), ns)
        cell.append(C); cs.append(C)
    return cs
ARGS = [((), {}), ((1,), {}), ((1, "x"), {}), ((None, (), {}, 4), {}), ((), {"key": 1}), ((0,), {"b": 3, "fn": 5, "name": 6}), ((), {"args": (1,), "kwargs": {"self_": 2}})]
def calls(ctx, prog, e):
    rng = ctx.rng
    name = rng.choice(["m", "m", "method", "__call__", "_m", "wrapper", "pure_virtual"])
    ran = []
    cs = build(ctx, prog, name, ran)
    for how in ("inst", "inst", "class", "super"):
        c = rng.randrange(len(cs))
        if how == "inst": d = c
        else: d = rng.choice([k for k in range(len(cs)) if issubclass(cs[k], cs[c])])
        o = cs[d]()
        if name == "__call__" and how == "class": continue   # a class is itself callable
        a, k = rng.choice(ARGS)
        via = rng.choice([0, 1, 2, 4] if name == "__call__" else [0, 1, 2, 3, 4])
        if how == "inst":
            if via == 1:
                # dispatched by a state machine whose state it is
                class Machine:
                    def __init__(self, o): self.state_manager = S.StateManager(o)
                def tramp(self, *args, **kwargs): "dispatched"
                tramp.__name__ = name
                setattr(Machine, name, S.dispatch()(tramp))
                mach = Machine(o)
                fn = lambda: getattr(mach, name)(*a, **k)
            elif via == 2: fn = lambda: functools.partial(getattr(o, name), *a)(**k)
            elif via == 3: fn = lambda: getattr(type(o), name)(o, *a, **k)
            else: fn = lambda: getattr(o, name)(*a, **k)
        elif how == "class": fn = lambda: getattr(cs[c], name)(o, *a, **k)
        else: fn = lambda: getattr(super(cs[c], o), name)(*a, **k)
        for _ in range(rng.choice([1, 1, 2])):
            ran.clear()
            out = ctx.outcome(fn)
            ctx.emit({"fn": "call", "p": prog, "how": how, "c": c + 1, "d": d + 1, "args": [ord(ch) for ch in show(a, k)], "ran": list(ran), "o": out})
def run(ctx):
    rng = ctx.rng
    for e in json.load(open(ctx.cfg["progs"])):
        if ctx.mine() and (ctx.thorough or rng.random() < 0.6): calls(ctx, e["p"], e)
    # longer hierarchies
    for _ in range(150 if not ctx.thorough else 2500):
        prog = []; tmp = []
        for i in range(rng.choice([4, 5, 8])):
            bs = rng.sample(range(1, i + 1), min(i, rng.choice([0, 1, 1, 1, 2, 2, 3])))
            try: C = type("T", tuple(tmp[b - 1] for b in bs), {})
            except TypeError:
                bs = [i] if i else []; C = type("T", tuple(tmp[b - 1] for b in bs), {})
            tmp.append(C)
            prog.append({"bases": bs, "m": rng.choice(["none", "none", "pure", "conc", "super", "super", "both"])})
        calls(ctx, prog, None)
