import core, chk_lines
def check(c):
    chk_lines.run(c, [("c20_small", 4), ("c20_rnd", 4)])
    objs = c.drive("drv_lines", "objects", shards=2)
    c.sample(objs, 1)
    c.batch("LinesBatch", core.batch_cfg("InfoVerdict"), objs, "LineInfo and lines objects")
