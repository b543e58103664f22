import json, os, random
import core
def check(c):
    lines = c.model("PushbackMC", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Conserved
CONSTANTS
 MaxLen = %d
 SrcLen = %d
""" % ((5, 4) if not c.thorough else (6, 5)))
    edges = core.parse_edges(lines)
    paths, cov, total = core.walks(edges, {"p": [], "s": [], "n": 0, "live": False}, random.Random(c.seed), maxlen=25)
    p = os.path.join(c.work, "paths.json"); json.dump(paths, open(p, "w"))
    c.notes["spec_edges_replayed"] = cov
    t = c.drive("drv_pushback", "replay", paths=p, shards=4)
    r = c.drive("drv_pushback", "rnd", shards=4)
    r += c.drive("drv_pushback", "bulk", shards=2)
    c.sample(r, 2)
    c.histories("PushbackTrace", core.trace_cfg("P"), t + r, "PushbackIterator")
    