import core
def check(c):
    for e, label in (("title_small", "title"), ("norm_small", "normalize"), ("combine_small", "combine"), ("bulk", "long texts, many splits")):
        r = c.drive("drv_case", e, shards=4)
        c.sample(r, 2)
        c.batch("CaseBatch", core.batch_cfg("CaseVerdict"), r, label)
