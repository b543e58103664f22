import chk_graph as G
def check(c):
    t = G.mc(c, 3, 1, 1, True, ["add", "remove", "new", "ready", "cycle", "check", "static", "len"], None if c.thorough else 40000)
    t += c.drive("drv_graph", "big")
    G.judge(c, t + G.rnd(c, "C09", 120), "cycles and static order")
