import core
def check(c):
    c.model("VersionMC", "INIT Init\nNEXT Next\nINVARIANTS BySignificance Antisymmetric EqualHasOneText RoundTrip\nCONSTANT Rich = %s\n" % ("TRUE" if c.thorough else "FALSE"))
    for e, label in (("parse_small", "grammar"), ("parse_rnd", "construction"), ("pairs", "order"), ("bulk", "many components")):
        r = c.drive("drv_version", e, shards=4)
        c.sample(r, 2)
        c.batch("VersionBatch", core.batch_cfg("VersionVerdict"), r, label)
