import json, os, random
import core
ALL = ["add", "remove", "new", "ready", "done", "reset", "close", "cycle", "check", "static", "len", "view", "vcopy", "gcopy"]
def mc(c, nodes, views, graphs, loops, ops, limit):
    lines = c.model("GraphMC", """INIT Init
NEXT Next
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Sane
INVARIANT Order
INVARIANT Progress
INVARIANT Incoherent
CONSTANTS
 Nodes = {%s}
 MaxViews = %d
 MaxGraphs = %d
 SelfLoops = %s
 Ops = {%s}
""" % (",".join(map(str, range(1, nodes + 1))), views, graphs, "TRUE" if loops else "FALSE", ",".join('"%s"' % o for o in ops)))
    edges = core.parse_edges(lines)
    rng = random.Random(c.seed)
    paths, cov, total = core.walks(edges, {"gs": [], "vs": []}, rng, maxlen=150)
    n = sum(map(len, paths))
    if limit and n > limit:
        rng.shuffle(paths)
        keep, k = [], 0
        for p in paths:
            k += len(p); keep.append(p)
            if k > limit: break
        paths = keep
        c.notes["spec_walk_events"] = c.notes.get("spec_walk_events", "") + " %d of %d" % (k, n)
    p = os.path.join(c.work, "paths-%d.json" % len(os.listdir(c.work)))
    json.dump(paths, open(p, "w"))
    return c.drive("drv_graph", "replay", part=os.path.basename(p)[:-5], paths=p, shards=8)
def rnd(c, focus, count):
    return c.drive("drv_graph", "rnd", shards=8, focus=focus, count=count * (20 if c.thorough else 1))
def judge(c, t, what):
    c.sample(t[-50:], 2)
    c.histories("GraphTrace", core.trace_cfg("G"), t, what)
    c.assumptions = ["nodes are hashable and compare by value"]
