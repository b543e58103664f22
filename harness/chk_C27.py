import core
def check(c):
    r = c.drive("drv_case", "gently_small", shards=4) + c.drive("drv_case", "gently_rnd", shards=4) + c.drive("drv_case", "gently_bulk", shards=4)
    c.sample(r, 3)
    c.batch("CaseBatch", core.batch_cfg("CaseVerdict"), r, "gently")
