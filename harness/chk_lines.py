import core
def run(c, entries, assumptions=()):
    recs = []
    for e, shards in entries: recs += c.drive("drv_lines", e, shards=shards)
    recs += c.drive("drv_lines", "bulk", shards=3, prop=c.pid)
    c.sample(recs, 3)
    c.batch("LinesBatch", core.batch_cfg("LinesVerdict"), recs, "lines modifiers")
    c.assumptions = list(assumptions)
