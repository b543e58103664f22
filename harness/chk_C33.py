import core
def check(c):
    t = c.drive("drv_quotes", "dep_small", shards=8)
    r = c.drive("drv_quotes", "dep_rnd", shards=4)
    r += c.drive("drv_quotes", "dep_bulk", shards=2)
    c.sample(r, 3)
    c.batch("QuotesBatch", core.batch_cfg("QuotesVerdict"), t + r, "deprecated parsers")
    l = c.drive("drv_lines", "c33_lines", shards=8)
    c.sample(l, 2)
    c.batch("LinesBatch", core.batch_cfg("LinesVerdict"), l, "deprecated lines_strip_comments")
    c.assumptions = ["single-character quotes, escapes and delimiters, as documented"]
