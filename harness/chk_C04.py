import chk_heap as H
def check(c):
    t = H.mc(c, [0, 1] if not c.thorough else [0, 1, 2], 3, 2, False)
    r = c.drive("drv_heap", "rnd", shards=4, part="rnd", focus="iter")
    c.sample(r, 2)
    c.histories("HeapTrace", H.TRACE, t + r, "Heap iteration")
    c.assumptions = ["heap values are integers (mutually comparable)"]
