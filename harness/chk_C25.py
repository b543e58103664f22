import core
def check(c):
    r = c.drive("drv_format", "code_small", shards=4) + c.drive("drv_format", "code_rnd", shards=4) + c.drive("drv_format", "code_bulk", shards=4)
    c.sample(r, 3)
    c.batch("FormatBatch", core.batch_cfg("FormatVerdict"), r, "code")
