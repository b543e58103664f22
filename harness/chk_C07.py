import chk_graph as G
def check(c):
    t = G.mc(c, 3, 1, 1, False, ["add", "remove", "new", "ready", "done", "reset"], None if c.thorough else 60000)
    t += c.drive("drv_graph", "wide")
    G.judge(c, t + G.rnd(c, "C07", 120), "graph views")
