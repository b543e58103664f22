import json, os
import core
def check(c):
    lines = c.model("VirtualMC", "INIT Init\nNEXT Next\nINVARIANT Show\nINVARIANT Laws\nCONSTANT NClasses = 3\n")
    progs = sorted(core.parse_edges(lines), key=json.dumps)
    c.notes["programs_of_the_specification"] = len(progs)
    p = os.path.join(c.work, "progs.json")
    json.dump(progs, open(p, "w"))
    r = c.drive("drv_virtual", progs=p, shards=4)
    c.sample(r, 3)
    c.batch("VirtualBatch", core.batch_cfg("VVerdict"), r, "pure virtual method")
    c.assumptions = ["Python's method resolution order is the C3 linearization of the specification; methods take self first"]
