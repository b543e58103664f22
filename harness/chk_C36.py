import core
def check(c):
    r = c.drive("drv_encode", shards=8)
    c.sample(r, 3)
    c.batch("EncodeBatch", core.batch_cfg("C36Verdict"), r, "encode_strings and the character tables")
    c.assumptions = ["subclasses of the containers whose constructor takes what the base class's takes", "encodings ascii, latin-1, utf-8, utf-16-le"]
