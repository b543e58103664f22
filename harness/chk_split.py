import core
def run(c):
    t = c.drive("drv_split", "small", part=c.pid, shards=8)
    r = c.drive("drv_split", "rnd", part=c.pid, shards=8)
    r += c.drive("drv_split", "bulk", part=c.pid, shards=4)
    c.sample(r, 3)
    c.notes["small_scope"] = "every string over {a,x,y} up to length %d with 17 separator sets, options sampled" % (7 if c.thorough else 5)
    c.batch("SplitBatch", core.batch_cfg("SplitVerdict"), t + r, c.pid)
    c.assumptions = ["separators are non-empty"]
