import json, os, random
import core
def check(c):
    big = c.thorough
    lines = c.model("SchedulerMC", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS Conserved NeverEarly
CONSTANTS
 MaxEvents = %d
 MaxNow = %d
 Rels = %s
 Abss = %s
 Pris = %s
""" % ((3, 2, "{0, 1, 2}", "{0, 1}", "{1, 100}") if not big else (4, 3, "{0, 1, 2}", "{0, 2}", "{1, 100}")))
    edges = core.parse_edges(lines)
    paths, cov, total = core.walks(edges, {"s": {"now": 0, "n": 0, "pend": [], "mode": "idle"}, "q": []}, random.Random(c.seed), maxlen=40, limit=40000 if big else 2500)
    p = os.path.join(c.work, "paths.json"); json.dump(paths, open(p, "w"))
    c.notes["spec_edges_replayed"] = cov; c.notes["spec_edges"] = total
    t = c.drive("drv_sched", "replay", paths=p, shards=6)
    r = c.drive("drv_sched", "rnd", shards=6)
    r += c.drive("drv_sched", "long", shards=2, part="long")
    c.sample(r, 2)
    c.histories("SchedulerTrace", core.trace_cfg("S"), t + r, "Scheduler")
    c.assumptions = ["the regulator's clock does not decrease", "times are exact in the time type used (no rounding)"]
