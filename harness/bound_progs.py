"Programs of bound inner classes: what is legal to do with them, and a choice of them."
# ---- the specification's view, needed only to choose operations that are legal
def mro(prog, c):
    def lin(c): return [c] + merge([lin(b) for b in prog[c - 1]["bases"]] + [list(prog[c - 1]["bases"])])
    def merge(ls):
        ls = [l for l in ls if l]
        if not ls: return []
        for l in ls:
            if not any(l[0] in m[1:] for m in ls): return [l[0]] + merge([m[1:] if m[0] == l[0] else m for m in ls])
        raise TypeError("no method resolution order")
    return lin(c)
def names(prog, c):
    "name -> class found through an instance of c (as written)"
    r = {}
    for k in mro(prog, c):
        for x, d in enumerate(prog, 1):
            if d["cont"] == k: r.setdefault(d["name"], x)
    return r
def chain_ok(prog, ns, x):
    "conservative: every bound class in the mro that has an __init__ is reached bound, or is passed outer by hand"
    m = mro(prog, x)
    inits = [y for y in m if prog[y - 1]["init"]]
    for n, y in enumerate(inits):
        d = prog[y - 1]
        # (the __init__ of a taker is inherited by a bound class, or isn't used)
        if d["kind"] == "taker" and (n or prog[x - 1]["kind"] != "bound"): return False
        if d["kind"] == "bound" and y != x:
            if ns.get(d["name"]) == y and all(ns.get(prog[z - 1]["name"]) == z for z in m if prog[z - 1]["kind"] in ("bound", "unbound")) and not any(prog[z - 1]["byhand"] for z in m): continue
            p = inits[n - 1] if n else None
            if p and prog[p - 1]["byhand"] and p == x and n == len(inits) - 1 and not any(ns.get(prog[z - 1]["name"]) == z for z in m if z != x and prog[z - 1]["kind"] == "bound"): continue
            return False
        if d["kind"] != "bound" and n and prog[inits[n - 1] - 1]["byhand"]: return False
    if any(prog[z - 1]["byhand"] for z in inits[-1:]): return False
    if prog[x - 1]["kind"] == "bound":
        y = inits[0]
        if prog[y - 1]["kind"] not in ("bound", "taker"): return False
        # a class that just inherits __init__ passes outer on to whatever is next
        seen = [z for z in m if prog[z - 1]["init"] or (prog[z - 1]["kind"] == "bound" and ns.get(prog[z - 1]["name"]) == z)]
    return True


def shapes(prog):
    "the shapes of the method resolution orders of the inner classes reached through instances of 1 and 3"
    out = set()
    for c in (1, 3):
        ns = names(prog, c)
        for n, x in ns.items():
            if prog[x - 1]["kind"] == "plain": continue
            out.add((tuple((prog[y - 1]["kind"], prog[y - 1]["init"], prog[y - 1]["byhand"], ns.get(prog[y - 1]["name"]) == y, len(prog[y - 1]["bases"])) for y in mro(prog, x)), chain_ok(prog, ns, x)))
    return out
def cover(progs, rng):
    "programs that have every shape among them"
    sg = [(p, shapes(p["prog"])) for p in progs]
    rng.shuffle(sg)
    sg.sort(key=lambda t: -len(t[1]))
    seen = set(); out = []
    for least in (3, 2, 1):
        for p, s in sg:
            if len(s - seen) >= least:
                seen |= s; out.append(p)
    return out

def legal(prog):
    "can the classes be written so?  (the Legal of BoundMC)"
    try: ms = [mro(prog, c) for c in range(1, len(prog) + 1)]
    except (TypeError, IndexError): return False
    if any(m is None for m in ms): return False
    for c, m in enumerate(ms, 1):
        d = prog[c - 1]
        if d["kind"] == "bound":
            i = [y for y in m if prog[y - 1]["init"]]
            if not i or prog[i[0] - 1]["kind"] not in ("bound", "taker"): return False
    return True
def random_program(rng):
    "a bigger program: more inner classes, and an unrelated outer class that derives from inner classes of the first"
    C = lambda name, cont, bases, kind, init, byhand=0: dict(name=name, cont=cont, bases=bases, kind=kind, init=init, byhand=byhand)
    while True:
        prog = [C(1, 0, [], "plain", 0), C(2, 0, [], "plain", 1), C(3, 0, [1], "plain", 0)]
        above = lambda cont: {1: (), 3: (1,), 4: (1, 3)}[cont]         # whose inner classes those of cont can derive from
        taker = rng.random() < 0.25        # the mixin is one whose __init__ takes the outer instance
        if taker: prog[1]["kind"] = "taker"
        other = rng.random() < 0.4
        if other: prog.append(C(4, 0, rng.choice([[], [3], [3], [1]]), "plain", 0))
        tangle = rng.random() < 0.5        # many classes derived from one another, few with an __init__ of their own
        for _ in range(rng.randrange(3, 8) if not tangle else rng.randrange(5, 9)):
            me = len(prog) + 1
            conts = [1] if tangle else [1, 1, 3] + ([4, 4] if other else [])
            cont = rng.choice(conts)
            # classes are written outer class by outer class
            cands = [x for x in range(1, me) if prog[x - 1]["cont"] == cont or prog[x - 1]["cont"] in above(cont)]
            k = rng.choice([0, 1, 1, 2, 2, 3]) if not tangle else rng.choice([1, 1, 2, 2])
            bases = sorted(rng.sample(cands, min(k, len(cands))), reverse=rng.random() < 0.8)
            if taker and rng.random() < 0.3: bases.insert(0, 2)
            elif rng.random() < 0.15: bases.insert(rng.randrange(len(bases) + 1), 2)
            name = me
            if cont != 1 and rng.random() < 0.3:
                elsewhere = [prog[x - 1]["name"] for x in range(1, me) if prog[x - 1]["cont"] in above(cont)]
                here = [prog[x - 1]["name"] for x in range(1, me) if prog[x - 1]["cont"] == cont]
                elsewhere = [n for n in elsewhere if n not in here]
                if elsewhere: name = rng.choice(sorted(set(elsewhere)))
            kind = rng.choice(["bound"] * 4 + ["unbound"]) if not tangle or rng.random() < 0.1 else "bound"
            init = int(rng.random() < (0.55 if not tangle else 0.3) * (0.5 if bases[:1] == [2] else 1) or not bases)
            prog.append(C(name, cont, bases, kind, init, int(init and kind == "bound" and bool(bases) and name != me and rng.random() < 0.5)))
            if not legal(prog): prog.pop()
        if len(prog) >= 6: return prog
