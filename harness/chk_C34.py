import json, os
import core
def check(c):
    lines = c.model("NumbersMC", "INIT Init\nNEXT Next\nINVARIANT Show\nINVARIANT Laws\n")
    objs = sorted(core.parse_edges(lines), key=json.dumps)
    c.notes["kinds_of_objects_of_the_specification"] = len(objs)
    p = os.path.join(c.work, "objs.json")
    json.dump(objs, open(p, "w"))
    r = c.drive("drv_numbers", "objects", objs=p, shards=4) + c.drive("drv_numbers", "values", shards=4)
    c.sample(r, 3)
    c.batch("NumbersBatch", core.batch_cfg("NVerdict"), r, "number conversion")
    c.assumptions = ["conversion methods raise only TypeError, ValueError or OverflowError", "Python's int() and float() decide what converts, and to what"]
