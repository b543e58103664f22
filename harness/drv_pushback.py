import json
from drvlib import tag
from big.itertools import PushbackIterator

class Obj:
    pass
class Falsy:
    def __bool__(self): return False
    def __len__(self): return 0
class Boom(Exception):
    pass
# the value with id k is VALUES[k]
VALUES = [Obj(), Obj(), None, Obj(), Obj(), 0, False, "", StopIteration(), Falsy(), [], Obj(), ValueError("v"), StopIteration, PushbackIterator([]), ()]
class Stopped(RuntimeError):
    "what a generator that lets StopIteration escape raises"
    def __init__(self, m): RuntimeError.__init__(self, m); self.__cause__ = StopIteration()
EXC = {-1: ValueError, -2: KeyError, -3: RuntimeError, -4: IndexError, -5: GeneratorExit, -6: StopAsyncIteration, -7: EOFError, -8: AttributeError, -9: TypeError, -10: Stopped}
class Changed(Exception): pass
RAISED = None
def boom(x):
    global RAISED
    RAISED = EXC[x]("boom")
    raise RAISED
def same(fn):
    "the exception that comes out is the very one that was raised inside"
    global RAISED
    RAISED = None
    try: return fn()
    except BaseException as e:
        if RAISED is not None and e is not RAISED: raise Changed() from e
        raise
def enc_val(v):
    # identified by identity; .next() without a default returns None, which is also value 2
    for i, x in enumerate(VALUES):
        if x is v and type(x) is type(v): return ("val", i)
    return tag(v)

class It:
    "a class-based iterator: can raise in the middle and go on"
    asked = 0
    def __init__(self, src): self.src = list(src)
    def __iter__(self): return self
    def __next__(self):
        self.asked += 1
        if not self.src: raise StopIteration
        x = self.src.pop(0)
        if x == 0: raise StopIteration      # (and yet it could go on)
        if x < 0: boom(x)
        return VALUES[x]
class FalsyIt(It):
    def __bool__(self): return False
class LenIt(It):
    def __len__(self): return 0
class Iterable:
    def __init__(self, src): self.src = src
    def __iter__(self):
        global WRAPPED
        WRAPPED = It(self.src)
        return WRAPPED
class FalsyIterable(Iterable):
    def __len__(self): return 0
class GetItem:
    def __init__(self, src): self.src = src
    def __getitem__(self, i):
        return VALUES[self.src[i]]
def gen(src):
    for x in src:
        if x < 0: boom(x)
        yield VALUES[x]

def make(src, kind):
    global WRAPPED
    WRAPPED = None
    bad = any(x <= 0 for x in src)
    kinds = ["It", "FalsyIt", "LenIt", "Iterable", "FalsyIterable"]
    if not bad or (src[-1] < 0 and all(x > 0 for x in src[:-1])): kinds += ["gen"]
    if not bad: kinds += ["list", "tuple", "GetItem", "iter", "nested", "nestedpush"]
    if not src: kinds += ["none", "noarg"]
    k = kinds[kind % len(kinds)]
    if k == "none": return PushbackIterator(None)
    if k == "noarg": return PushbackIterator()
    if k == "nested": return PushbackIterator(PushbackIterator([VALUES[x] for x in src]))
    if k == "nestedpush":
        p = PushbackIterator([VALUES[x] for x in src[2:]])
        for x in src[:2][::-1]: p.push(VALUES[x])
        return PushbackIterator(p)
    a = {"It": It, "FalsyIt": FalsyIt, "LenIt": LenIt, "Iterable": Iterable, "FalsyIterable": FalsyIterable, "gen": gen,
         "list": lambda s: [VALUES[x] for x in s], "tuple": lambda s: tuple(VALUES[x] for x in s),
         "iter": lambda s: iter([VALUES[x] for x in s]), "GetItem": GetItem}[k](src)
    if isinstance(a, It): WRAPPED = a
    return PushbackIterator(a)

def play(ctx, path, kind):
    t = [{}]
    it = None
    for e in path:
        op = e["op"]
        if op == "new":
            def fn():
                nonlocal it
                it = make(e["src"], kind)
        elif op == "push": fn = lambda: it.push(VALUES[e["x"]])
        elif op == "next": fn = lambda: next(it)
        elif op == "nextd": fn = (lambda: it.next(VALUES[e["d"]])) if len(t) % 2 else (lambda: it.next(default=VALUES[e["d"]]))
        elif op == "nextn": fn = lambda: it.next()
        elif op == "bool": fn = lambda: bool(it)
        elif op == "iter": fn = lambda: iter(it) is it
        elif op == "drain": fn = lambda: list(it) if len(t) % 2 else [x for x in it]
        enc = {"drain": lambda v: ("vals", [enc_val(x)[1] for x in v]), "bool": tag, "iter": tag, "new": tag, "push": tag}.get(op, enc_val)
        o = ctx.outcome(lambda: same(fn), enc=enc)
        e = dict(e); e["o"] = o
        t.append(e)
        if WRAPPED is not None: t.append({"op": "taken", "n": WRAPPED.asked})
    ctx.emit(t)

def replay(ctx):
    for i, p in enumerate(json.load(open(ctx.cfg["paths"]))):
        if i % ctx.shards == ctx.shard:
            # exceptions of many classes in place of the specification's few
            for e in p:
                if e["op"] == "new": e["src"] = [x if x >= 0 else -((i // ctx.shards - x) % len(EXC) + 1) for x in e["src"]]
            play(ctx, p, i)

def rnd(ctx):
    rng = ctx.rng
    for i in range(150 if not ctx.thorough else 4000):
        ids = [k for k in range(1, len(VALUES))]
        v = lambda: rng.choice(ids)
        src = [v() if rng.random() < 0.85 else rng.choice([0, -rng.randrange(1, 11), -rng.randrange(1, 11)]) for _ in range(rng.randrange(0, 9))]
        p = [{"op": "new", "src": src}]
        for _ in range(rng.randrange(5, 50)):
            r = rng.random()
            if r < 0.3: p.append({"op": "push", "x": v()})
            elif r < 0.55: p.append({"op": "next"})
            elif r < 0.65: p.append({"op": "nextd", "d": v()})
            elif r < 0.75: p.append({"op": "nextn"})
            elif r < 0.95: p.append({"op": "bool"})
            elif r < 0.97: p.append({"op": "iter"})
            elif r < 0.98: p.append({"op": "drain"})
        play(ctx, p, rng.randrange(1000))
def bulk(ctx):
    "hundreds of values, pushed and pulled"
    rng = ctx.rng
    ids = list(range(1, len(VALUES)))
    for i in range(6 if not ctx.thorough else 60):
        v = lambda: rng.choice(ids)
        p = [{"op": "new", "src": [v() for _ in range(rng.choice([0, 40, 250]))]}]
        for _ in range(rng.choice([1, 2, 4])):
            p += [{"op": "push", "x": v()} for _ in range(rng.choice([20, 130, 270]))]
            if rng.random() < 0.5: p.append({"op": "bool"})
            for _ in range(rng.choice([10, 140, 300])):
                r = rng.random()
                p.append({"op": "next"} if r < 0.5 else {"op": "nextn"} if r < 0.7 else {"op": "nextd", "d": v()} if r < 0.9 else {"op": "push", "x": v()})
        p += [{"op": "bool"}, {"op": "drain"}, {"op": "bool"}]
        play(ctx, p, rng.randrange(1000))
