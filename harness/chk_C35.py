import core
def check(c):
    c.model("WordsMC", "INIT Init\nNEXT Next\nINVARIANT Inverse\nINVARIANT Same2\nINVARIANT Plain\nCONSTANT Limit = %d\n" % (1000 if not c.thorough else 20000))
    r = c.drive("drv_words", shards=8)
    c.sample(r, 3)
    c.batch("WordsBatch", core.batch_cfg("WVerdict"), r, "int_to_words")
    c.assumptions = ["at most 4300 digits (Python's own limit for int to str)", "the spellings twelveth and qindecillion, and runs of spaces, are taken as they are: the existing tests pin them"]
