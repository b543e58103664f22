import core
def check(c):
    t = c.drive("drv_quotes", "sqs_small", shards=8)
    r = c.drive("drv_quotes", "sqs_rnd", shards=4)
    r += c.drive("drv_quotes", "sqs_bulk", shards=2)
    c.sample(r, 3)
    c.batch("QuotesBatch", core.batch_cfg("QuotesVerdict"), t + r, "split_quoted_strings")
    c.assumptions = ["the escape hides a quote mark (outside quotes: any; inside: the open one) and itself, both inside and outside quotes"]
