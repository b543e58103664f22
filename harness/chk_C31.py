import core
def check(c):
    r = c.drive("drv_grep", shards=8)
    n = c.drive("drv_grep", "names", shards=4)
    big = c.drive("drv_grep", "bulk", shards=4)
    c.sample(r, 3); c.sample(n, 2)
    c.batch("GrepBatch", core.batch_cfg("GVerdict"), r + n, "grep and names")
    c.batch("GrepBatch", core.batch_cfg("GVerdict"), big, "big files")
    c.assumptions = ["ignoring case is judged for ASCII, Latin-1, Greek and Cyrillic letters with a one-to-one case mapping (and both small sigmas)"]
