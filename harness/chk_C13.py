import json, os, random
import core, bound_progs
def check(c):
    lines = c.model("BoundMC", "INIT Init\nNEXT Next\nINVARIANT Promised\nCONSTANT Big = %s\n" % ("TRUE"))
    progs = sorted(core.parse_edges(lines), key=json.dumps)
    c.notes["programs_of_the_specification"] = len(progs)
    rng = random.Random(c.seed)
    small = [p for p in progs if len(p["prog"]) == 5]
    pick = small + rng.sample(progs, 500 if not c.thorough else 6000)
    cov = bound_progs.cover(progs, rng)
    c.notes["programs_with_every_shape"] = len(cov)
    pick += [dict(x, cover=1) for x in cov]
    p = os.path.join(c.work, "progs.json")
    json.dump(pick, open(p, "w"))
    t = c.drive("drv_bound", "replay", progs=p, shards=4 if not c.thorough else 8)
    t += c.drive("drv_bound", "bigger", n=1500 if not c.thorough else 20000, shards=4 if not c.thorough else 8)
    t += c.drive("drv_bound", "copies")
    c.sample(t, 2)
    c.histories("BoundTrace", core.trace_cfg("B"), t, "bound inner classes")
    c.notes["programs_run"] = len(pick)
