import json, os, random, glob
import core
def check(c):
    big = c.thorough
    # the design, at the granularity of lock and wake-up event: safe with the swapped event; the specification
    # must tell apart the designs that lose wake-ups
    for v, safe in (("swap", True), ("setclear", False), ("late", False)):
        cfg = """INIT Init
NEXT Next
INVARIANTS NoLostWakeup OneThreadEach NeverEarly
CONSTANTS
 Consumers = {1, 2}
 Producers = {%s}
 MaxT = %d
 Variant = "%s"
""" % (("3, 4", 3, v) if not big else ("3, 4, 5", 3, v))
        if safe: c.model("SchedulerLock", cfg)
        else:
            rc, lines, _, _ = c.tlc("SchedulerLock", cfg)
            if rc != 12 or not any("NoLostWakeup is violated" in x for x in lines):
                raise core.Machinery("the design model does not show the lost wake-up of variant " + v + core.tail(lines))
    t = c.drive("drv_conc", "systematic", shards=8)
    r = c.drive("drv_conc", "rnd", shards=8)
    runs = sum(int(open(f).read()) for f in glob.glob(os.path.join(c.work, "*.runs")))
    c.notes["interleavings_executed"] = runs
    seen = set(); u = []
    for x in t + r:
        s = json.dumps(x)
        if s not in seen: seen.add(s); u.append(x)
    c.sample(u, 2)
    judge(c, u)
    c.assumptions = ["threads switch only at lock operations, at lines (sampled: bytecodes) of big/scheduler.py and big/heap.py, and in waits", "computing takes no time: the clock advances only when every thread is blocked"]

def judge(c, traces):
    path = os.path.join(c.work, "conc.ndjson")
    with open(path, "w") as f:
        for r in traces: f.write(json.dumps({"h": r[0], "ev": r[1:]}, separators=(",", ":")) + "\n")
    cfg = "INIT CInit\nNEXT CNext\nINVARIANT Accepted\n"
    rc, lines, gen, dist = c.tlc("SchedulerConc", cfg, dict(TRACES=path))
    if rc != 0: raise core.Machinery("TLC failed on SchedulerConc (rc %d)\n%s" % (rc, core.tail(lines)))
    acc = {json.loads(json.loads(l))[1] for l in lines if l.startswith('"[\\"ACC')}
    c.states += dist; c.transitions += gen; c.traces += len(traces)
    for i, t in enumerate(traces):
        if i + 1 not in acc:
            c.violation("no order of atomic calls explains the history", {"header": t[0], "history": t[1:]})
