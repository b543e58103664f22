import chk_graph as G
def check(c):
    t = G.mc(c, 2, 2, 2, False, G.ALL, None if c.thorough else 60000)
    G.judge(c, t + G.rnd(c, "C10", 120), "copies of graphs and views")
