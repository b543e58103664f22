import json, os, random
import core
def check(c):
    scheds = []
    def cfg(tasks, steps, impl): return """INIT Init
NEXT Next
INVARIANTS Right Emit
CONSTANTS
 Tasks = {%s}
 Steps = %d
 Impl = "%s"
""" % (", ".join(str(k) for k in range(1, tasks + 1)), steps, impl)
    for tasks, steps in ((2, 5), (3, 3)) if not c.thorough else ((2, 6), (3, 3), (4, 2)):
        scheds += sorted(json.dumps(x["sched"]) for x in core.parse_edges(c.model("PureMC", cfg(tasks, steps, "private"))))
    # the interleavings tell apart implementations that share what they must not
    for impl, tasks in (("shared", 2), ("cached", 3)):
        rc, lines, _, _ = c.tlc("PureMC", cfg(tasks, 2, impl))
        if rc != 12 or not any("Right is violated" in x for x in lines):
            raise core.Machinery("the model does not show the interference of implementation " + impl + core.tail(lines))
    scheds = [json.loads(x) for x in scheds]
    p = os.path.join(c.work, "scheds.json"); json.dump(scheds, open(p, "w"))
    n = 12 if not c.thorough else 60
    c.drive("drv_pure", "alone", n=n, shards=4)
    t = c.drive("drv_pure", "together", n=n, parts=4, scheds=p, rounds=600 if not c.thorough else 2500, shards=4 if not c.thorough else 8)
    c.notes["interleavings_of_the_specification"] = len(scheds)
    c.sample(t, 1)
    c.histories("PureTrace", core.trace_cfg("U"), t, "independent uses")
    c.assumptions = ["what one use does alone is taken from a separate process that runs the tasks one after another"]
