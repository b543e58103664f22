import json, os, random
import core
def run(c, via):
    n, mo, md = (3, 2, 3)
    lim = None
    t = []
    if via: n, mo, md, = 3, 1, 2
    for cfgno in (1, 2, 3):
        lines = c.model("StateManagerMC", """INIT Init
NEXT Next
VIEW View
CONSTRAINT Alive
ACTION_CONSTRAINT Edge
INVARIANT NextSet
INVARIANT OldVisible
INVARIANT NeverNone
CONSTANTS
 NStates = %d
 MaxObs = %d
 MaxDepth = %d
 CfgNo = %d
""" % (n, mo if cfgno == 1 or c.thorough else 1, md if cfgno == 1 or not c.thorough else 3, cfgno))
        edges = core.parse_edges(lines)
        cfg = [dict(exit=[1, 2, 3], enter=[1, 2, 3], wrong=[], typed=0), dict(exit=[], enter=[1, 2], wrong=[], typed=0),
               dict(exit=[2, 3], enter=[], wrong=[3], typed=1)][cfgno - 1]
        cfg["n"] = n
        init = {"cur": 0, "next": 0, "obs": [], "fr": [], "env": True, "made": False}
        paths, cov, total = core.walks(edges, init, random.Random(c.seed), maxlen=120)
        p = os.path.join(c.work, "paths%d.json" % cfgno)
        json.dump({"cfg": cfg, "paths": paths}, open(p, "w"))
        c.notes["spec_edges_replayed"] = c.notes.get("spec_edges_replayed", 0) + cov
        t += c.drive("drv_state", "replay", part="c%d" % cfgno, paths=p, shards=4, via=via)
    r = c.drive("drv_state", "rnd", shards=4, via=via)
    c.sample(r, 2)
    c.histories("StateManagerTrace", core.trace_cfg("S"), t + r, "StateManager" if not via else "accessor/dispatch")
