import chk_heap as H
def check(c):
    t = H.mc(c, [0, 1, 2] if not c.thorough else [0, 1, 2, 3], 3 if not c.thorough else 4, 0, True)
    r = c.drive("drv_heap", "rnd", shards=4, part="rnd")
    r += c.drive("drv_heap", "shapes", shards=4, part="shapes")
    c.sample(r, 2)
    c.histories("HeapTrace", H.TRACE, t + r, "Heap operations")
    c.assumptions = ["heap values are integers (mutually comparable)"]
