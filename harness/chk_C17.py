import core
def check(c):
    t = c.drive("drv_regex", "small", shards=8)
    r = c.drive("drv_regex", "rnd", shards=8)
    r += c.drive("drv_regex", "bulk", shards=8)
    c.sample(r, 3)
    c.batch("RegexBatch", core.batch_cfg("RegexVerdict"), t + r, "re_partition")
    c.assumptions = ["regular expressions: literals, classes, sequence, alternation, greedy and lazy repetition, lookaround, anchors, word boundaries"]
