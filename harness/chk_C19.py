import core
def check(c):
    t = c.drive("drv_delims", "small", shards=8)
    r = c.drive("drv_delims", "rnd", shards=4)
    r += c.drive("drv_delims", "bulk", shards=2)
    c.sample(r, 3)
    c.batch("DelimsBatch", core.batch_cfg("DelimsVerdict"), t + r, "split_delimiters")
    objs = c.drive("drv_delims", "objects", shards=2)
    c.batch("DelimsBatch", core.batch_cfg("DObjVerdict"), objs, "Delimiter objects")
    c.assumptions = ["escapes are single characters (as documented) and differ from the close mark of their delimiter"]
