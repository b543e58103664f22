"""Input generation shared by the drivers of the text functions."""
import itertools, json
class SS(str):
    pass
class BB(bytes):
    pass
def strings(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k): yield "".join(t)
def rstring(rng, alphabet, n):
    "random string with runs"
    s = []
    k = rng.randrange(0, n + 1)
    while len(s) < k:
        x = rng.choice(alphabet)
        s.append(x * rng.choice([1, 1, 1, 1, 2, 3]))
    return "".join(s)
def conv(x, b):
    "str (latin-1 only) -> bytes when b"
    return x.encode("latin-1") if b else x
def cps(s): return [ord(c) for c in s] if isinstance(s, str) else list(s)
def forms(rng, v, b):
    "a list of strings, as one of the kinds of iterables allowed"
    k = rng.randrange(10)
    if k == 0 and v and all(len(x) == 1 for x in v): return (b"" if b else "").join(v)
    if k == 1: return iter(v)
    if k == 2: return (x for x in v)
    if k == 3: return dict.fromkeys(v).keys() if len(set(v)) == len(v) else tuple(v)
    if k == 4: return dict.fromkeys(v) if len(set(v)) == len(v) else tuple(v)
    if k == 5: return set(v) if len(set(v)) == len(v) else list(v)
    if k == 6: return frozenset(v) if len(set(v)) == len(v) else list(v)
    return list(v) if k < 9 else tuple(v)
