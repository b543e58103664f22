import json, os, random
import core
def check(c):
    lines = c.model("LogMC", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT TimesMonotone
INVARIANT ElapsedSums
INVARIANT DepthSteps
CONSTANTS
 MaxEvs = %d
""" % (4 if not c.thorough else 5))
    edges = core.parse_edges(lines)
    init = {"now": [0, 0], "start": 0, "stack": [], "evs": []}
    paths, cov, total = core.walks(edges, init, random.Random(c.seed), maxlen=40)
    p = os.path.join(c.work, "paths.json"); json.dump(paths, open(p, "w"))
    c.notes["spec_edges_replayed"] = cov
    t = c.drive("drv_log", "replay", paths=p, shards=4)
    r = c.drive("drv_log", "rnd", shards=4)
    r += c.drive("drv_log", "bulk", shards=2)
    c.sample(r, 1)
    c.histories("LogTrace", core.trace_cfg("L"), t + r, "Log")
    c.assumptions = ["the clock never runs backwards", "seconds below 2^30"]
