import json, os, random
import core
def check(c):
    t = []
    for mode, depth in (("tree", 0), ("pushd", 2 if not c.thorough else 3)):
        lines = c.model("FilesMC", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Tree
PROPERTY Keeps
CONSTANTS Mode = "%s"
 MaxDepth = %d
""" % (mode, depth))
        edges = core.parse_edges(lines)
        init = next(e["s"] for e in edges if e["s"]["cwd"] == [] and e["s"]["stack"] == [] and (e["s"]["fs"] == [] or mode == "pushd"))
        paths, cov, total = core.walks(edges, init, random.Random(c.seed), maxlen=60)
        if mode == "tree" and not c.thorough:
            paths = random.Random(c.seed).sample(paths, min(len(paths), 350))
        p = os.path.join(c.work, "paths-%s.json" % mode)
        json.dump(paths, open(p, "w"))
        c.notes["spec_edges_" + mode] = total
        c.notes["behaviours_replayed_" + mode] = len(paths)
        t += c.drive("drv_file", "replay", part=mode, mode=mode, paths=p, shards=4 if not c.thorough else 8)
    r = c.drive("drv_file", "rnd", shards=8)
    c.sample(r, 1); c.sample(t, 1)
    c.histories("FilesTrace", core.trace_cfg("FR"), t + r, "file helpers")
    c.assumptions = ["no concurrent change of the file tree", "pushd is used as `with pushd(d):`, and the directory to return to is not removed meanwhile"]
