import json, inspect
from drvlib import outcome, tag
from big.state import StateManager, State, TransitionError, accessor, dispatch

class Boom(BaseException): pass
BOOMS = {"Boom": Boom}
for x in (AttributeError, TypeError, ValueError, KeyError, StopIteration, GeneratorExit, TransitionError, RuntimeError): BOOMS[x.__name__] = x

class FalseCall:
    def __init__(self, f, o): self.f, self.o = f, o
    def __call__(self, *a): return self.f(self.o, *a)
    def __bool__(self): return False
    def __len__(self): return 0

def build(cfg, naming, use_base):
    """Builds the state objects 1..n.  naming: (on_enter, on_exit) names passed to the StateManager (or None = disabled)."""
    env = {"log": None, "run": None}
    enter, exit_ = naming
    class Base(State if use_base else object):
        pass
    class Other(State if use_base else object):
        pass
    objs = {}
    n = cfg["n"]
    for s in range(1, n + 1):
        base = Other if s in cfg["wrong"] else Base
        d = {"num": s}
        def mk(kind, s=s):
            def cb(self): env["cb"](kind, s, True)
            return cb
        names = {}
        for cand in ("on_enter", "on_exit", "enter", "leave"):
            names[cand] = mk("decoy-" + cand)   # must not be called unless configured
        if use_base and not cfg.get("decoy", 1): names = {}
        if enter:
            if s in cfg["enter"]: names[enter] = mk("enter")
            else: names.pop(enter, None)
        if exit_:
            if s in cfg["exit"]: names[exit_] = mk("exit")
            else: names.pop(exit_, None)
        d.update(names)
        if s == 2:
            d["__bool__"] = lambda self: False
            d["__len__"] = lambda self: 0
        if s in (3, 1):       # 1 and 3 are equal but different objects
            d["__eq__"] = lambda self, o: getattr(o, "num", 0) in (1, 3)
            d["__hash__"] = lambda self: 7
        if s == 4:
            d["__eq__"] = lambda self, o: True
            d["__hash__"] = lambda self: 8
        if s == 5:
            objs[s] = type("S5", (base,), d)()
            continue
        objs[s] = type("S%d" % s, (base,), d)()
    if 5 in objs:
        # the callbacks of state 5 are false values
        for k, v in list(type(objs[5]).__dict__.items()):
            if k in ("on_enter", "on_exit", "enter", "leave"): setattr(objs[5], k, FalseCall(v, objs[5]))
    return objs, Base, env

class Obs:
    def __init__(self, k, env): self.k, self.env = k, env
    def __call__(self, sm): self.env["cb"]("obs", self.k, sm is self.env["sm"]())
    def __eq__(self, other): return isinstance(other, Obs)     # all observers are equal
    def __hash__(self): return 1
    def __bool__(self): return self.k != 2

def play(ctx, header, path, naming, use_base, viaacc=None):
    cfg = header
    objs, Base, env = build(cfg, naming, use_base)
    num = lambda o: 0 if o is None else next((k for k, v in objs.items() if v is o), -1)
    observers = {k: Obs(k, env) for k in (1, 2, 3)}
    rng = ctx.rng
    script = [e for e in path if e["op"] not in ("cb", "end")]
    script.reverse()
    t = [header]
    box = []
    depth = [0]
    class SM(StateManager):
        def __init__(self, *a, **k):
            box.append(self)
            super().__init__(*a, **k)
    env["sm"] = lambda: box[0]
    host = None
    if viaacc is not None:
        A, M, P, S = viaacc
        class Host: pass
        def ev1(self, time, *a, verbose=False, **k):
            "the docs"
            raise AssertionError("the decorated function itself must not run")
        ev1.__name__ = "event"
        Host.event = dispatch(M, prefix=P, suffix=S)(ev1) if (P or S or M != "state_manager") else dispatch()(ev1)
        if (A, M) == ("state", "state_manager"): Host = accessor()(Host)
        else: Host = accessor(A, M)(Host)
        host = Host()
        host.__dict__["unrelated"] = 1
        for k, o in objs.items():
            def handler(*a, _k=k, **kw):
                env["rec"].append((_k, a, kw))
                if kw.get("transit"):
                    do(kw["transit"])
                if kw.get("boom"): raise KeyError("boom")
                return ("ret", _k)
            decoys = {"event", "xevent", "eventx", "on_event", "event_done", P + "event", "event" + S, P + "event" + S}
            for d in decoys - {P + "event" + S}:
                setattr(o, d, lambda *a, **k: env["rec"].append(("decoy",)))
            # the handler may be the instance's own, hiding its class's; or its class's
            if k % 3 != 2: setattr(o, P + "event" + S, handler)
            if k % 3 != 1: setattr(type(o), P + "event" + S, staticmethod(handler) if k % 3 == 2 else lambda self, *a, **k: env["rec"].append(("decoy",)))

        class Lone: pass
        lone = Lone()
        setattr(lone, P + "event" + S, lambda *a, **k: ("lone", a, k))
        host2 = Host()
        setattr(host2, M, StateManager(lone))
        class Twin:
            def __init__(self, n): setattr(self, P + "event" + S, lambda *a: (n, a))
        twins = [Twin(i) for i in range(4)]
        host3 = Host()
        def second_ok():
            "another instance of the same class is served by its own state manager; and that may be replaced"
            if not (getattr(host2, A) is lone and host2.event(1, z=2) == ("lone", (1,), {"z": 2})): return False
            m1, m2 = StateManager(twins[0]), StateManager(twins[1])
            for m, a, b in ((m1, 0, 2), (m2, 1, 3), (m1, 2, 0)):
                setattr(host3, M, m)
                if getattr(host3, A) is not twins[a] or host3.event(5) != (a, (5,)): return False
                setattr(host3, A, twins[b])
                if m.state is not twins[b] or getattr(host3, A) is not twins[b] or host3.event(6) != (b, (6,)): return False
            return m2.state is twins[3]

    def see():
        sm = box[0]
        if host is not None and hasattr(host, viaacc[1]) and num(getattr(host, viaacc[0])) != num(sm.state):
            return -2, num(sm.next)      # the accessor disagrees with the state manager
        return num(sm.state), num(sm.next)

    def cb(kind, who, argok):
        a, b = see() if box else (-1, -1)
        t.append({"op": "cb", "kind": kind, "who": who, "state": a, "next": b, "arg": 1 if argok else 0})
        if len(t) > 400: raise RuntimeError("too long")
        depth[0] += 1
        r = run()
        depth[0] -= 1
        if r:
            t.append({"op": "raise", "exc": r})
            raise BOOMS[r]("boom")
        t.append({"op": "ret"})
    env["cb"] = cb

    def do(e):
        op = e["op"]
        if op in ("new", "assign"):
            t.append({"op": op, "s": e["s"]})
            v = objs.get(e["s"])
            try:
                if op == "new":
                    kw = {}
                    en, ex = naming
                    if en != "on_enter" or cfg.get("explicit"): kw["on_enter"] = en
                    if ex != "on_exit" or cfg.get("explicit"): kw["on_exit"] = ex
                    if cfg["typed"]: kw["state_class"] = Base
                    if host is not None:
                        # so that callbacks during construction find it
                        sm = SM.__new__(SM); setattr(host, viaacc[1], sm)
                        sm.__init__(v, **kw)
                    else:
                        SM(v, **kw)
                elif host is not None and e.get("via", 1):
                    setattr(host, viaacc[0], v)
                else:
                    box[0].state = v
                exc = ""
            except (Exception, Boom, GeneratorExit) as x:
                exc = type(x).__name__
            a, b = see() if box else (0, 0)
            t.append({"op": "end", "exc": exc, "state": a, "next": b})
        elif op == "badnew":
            kw = {"class": {"state_class": rng.choice([3, "State", (Base,), Base()])},
                  "enter": {"on_enter": rng.choice(["on enter", "1st", 5, b"on_enter", ("x",)])}, "exit": {"on_exit": rng.choice(["on-exit", "2", 5.0, "x()"])}}[e["kind"]]
            n = len(t)
            try:
                StateManager(objs[1], **kw); exc = ""
            except Exception as x: exc = type(x).__name__
            t.append({"op": "badnew", "kind": e["kind"], "exc": exc, "cbs": len(t) - n})
        elif op == "oadd":
            box[0].observers.insert(e["at"], observers[e["o"]]); t.append(e)
        elif op == "odel":
            del box[0].observers[e["at"] - 1]; t.append(e)
        elif op == "oreplace":
            box[0].observers = [observers[o] for o in e["os"]]; t.append(e)
        elif op == "read":
            good = int(second_ok()); w = type(host).event
            meta = [getattr(w, a, None) == getattr(ev1, a) for a in ("__name__", "__qualname__", "__module__", "__doc__")] + [inspect.signature(w) == inspect.signature(ev1)]
            t.append({"op": "read", "who": num(getattr(host, viaacc[0])), "good": good, "meta": [int(x) for x in meta]})
        elif op == "call":
            args = tuple(e["args"]); kw = dict((k, k + "!") for k in e["kws"])
            cur = num(box[0].state)
            rec = env["rec"] = []
            boom, transit = e.get("boom"), e.get("transit")
            if boom: kw["boom"] = 1
            pos = len(t)
            if transit is not None and transit != cur: kw["transit"] = {"op": "assign", "s": transit, "via": 1}
            try: r = ("v", host.event(*args, **kw))
            except KeyError as x: r = ("exc", x.args)
            except Exception as x: r = ("other", type(x).__name__)
            good = 0; who = -1
            if len(rec) == 1 and len(rec[0]) == 3:
                who = rec[0][0]
                good = int(rec[0][1] == args and rec[0][2] == kw and
                           (r == ("exc", ("boom",)) if boom else r == ("v", ("ret", who))) and second_ok())
            t.insert(pos, {"op": "call", "who": who, "good": good})

    def run():
        while script:
            e = script.pop()
            if e["op"] == "ret":
                if depth[0]: return
                continue
            if e["op"] == "raise":
                if depth[0]: return e["exc"]
                continue
            if e["op"] == "new" and any(x.get("op") == "new" for x in t): continue
            if e["op"] == "oadd" and e["at"] > len(box[0].observers): e = dict(e, at=0)
            if e["op"] == "odel" and not (1 <= e["at"] <= len(box[0].observers)): continue
            do(e)
            if not box or e["op"] == "new" and t[-1].get("exc"): return
            if len(t) > 300: return
    o = ctx.outcome(run)
    if o["exc"]: t.append({"op": "cb", "kind": "driver exception " + o["exc"], "who": 0, "state": 0, "next": 0, "arg": 0})
    ctx.emit(t)

NAMINGS = [("on_enter", "on_exit"), ("enter", "leave"), ("on_enter", None), ("", "leave"), (None, None)]
def naming_for(cfg, i):
    "a naming under which the sets of effective callbacks are as cfg says"
    ok = [n for n in NAMINGS if (n[0] or not cfg["enter"]) and (n[1] or not cfg["exit"])]
    return ok[i % len(ok)]

VIA = [("state", "state_manager", "", ""), ("st", "mgr", "on_", ""), ("state", "machine", "", "_done"), ("x", "state_manager", "x", "x"),
       ("next", "mgr", "", ""), ("observers", "next", "handle_", ""), ("current", "state", "", "_"), ("on_enter", "observers", "do_", "")]
def replay(ctx):
    j = json.load(open(ctx.cfg["paths"]))
    via = ctx.cfg.get("via")
    for i, p in enumerate(j["paths"]):
        if i % ctx.shards == ctx.shard:
            n = naming_for(j["cfg"], i)
            play(ctx, j["cfg"], p, n, use_base=False, viaacc=VIA[i % len(VIA)] if via else None)

def rnd(ctx):
    rng = ctx.rng
    via = ctx.cfg.get("via")
    for i in range(200 if not ctx.thorough else 5000):
        n = 5
        sub = lambda p: [s for s in range(1, n + 1) if rng.random() < p]
        typed = rng.random() < 0.4
        cfg = {"n": n, "exit": sub(0.7), "enter": sub(0.7), "wrong": sub(0.2) if typed else [], "typed": int(typed), "explicit": rng.randrange(2)}
        nm = rng.choice(NAMINGS)
        if not nm[0]: cfg["enter"] = []
        if not nm[1]: cfg["exit"] = []
        p = [{"op": "new", "s": rng.randrange(1, n + 1) if rng.random() < 0.95 else 0}]
        if rng.random() < 0.1: p = [{"op": "badnew", "kind": rng.choice(["class", "enter", "exit"])}] + p
        for _ in range(rng.randrange(5, 60)):
            r = rng.random()
            if r < 0.45: p.append({"op": "assign", "s": rng.randrange(0 if rng.random() < 0.2 else 1, n + 1), "via": rng.randrange(2)})
            elif r < 0.60: p.append({"op": "oadd", "o": rng.randrange(1, 4), "at": rng.randrange(0, 3)})
            elif r < 0.66: p.append({"op": "odel", "at": rng.randrange(1, 4)})
            elif r < 0.69: p.append({"op": "oreplace", "os": [rng.randrange(1, 4) for _ in range(rng.randrange(4))]})
            elif r < 0.78 and via: p.append({"op": "read"})
            elif r < 0.88 and via:
                e = {"op": "call", "args": [rng.randrange(9) for _ in range(rng.randrange(3))], "kws": [k for k in ("a", "self_", "fn") if rng.random() < 0.3]}
                if rng.random() < 0.3: e["boom"] = 1
                elif rng.random() < 0.3: e["transit"] = rng.randrange(1, n + 1)
                p.append(e)
            else: p.append({"op": "ret"} if rng.random() < 0.8 else {"op": "raise", "exc": rng.choice(sorted(BOOMS))})
        play(ctx, cfg, p, nm, rng.random() < 0.3 and len(cfg["exit"]) == n and len(cfg["enter"]) == n, rng.choice(VIA) if via else None)
