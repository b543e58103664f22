import json, os, random
import core
TRACE = """INIT TraceInit
NEXT TraceNext
VIEW TView
CONSTANT Init0 <- HInit0
CONSTANT Clauses <- HClauses
CONSTANT After <- HAfter
"""
def mc(c, vals, maxlen, maxits, reads):
    cfg = """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Sorted
INVARIANT ItersOK
CONSTANTS
 Vals = {%s}
 MaxLen = %d
 MaxIts = %d
 Reads = %s
""" % (",".join(map(str, vals)), maxlen, maxits, "TRUE" if reads else "FALSE")
    lines = c.model("HeapMC", cfg)
    edges = core.parse_edges(lines)
    paths, cov, total = core.walks(edges, {"hs": [[]], "its": []}, random.Random(c.seed), maxlen=200)
    p = os.path.join(c.work, "paths-%d.json" % len(os.listdir(c.work)))
    json.dump(paths, open(p, "w"))
    c.notes.setdefault("spec_edges_replayed", 0)
    c.notes["spec_edges_replayed"] += cov
    if cov != total: raise core.Machinery("walks missed edges")
    return c.drive("drv_heap", "replay", shards=4, part="p%d" % maxits, paths=p)
