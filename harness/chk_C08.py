import chk_graph as G
def check(c):
    t = G.mc(c, 2, 2, 1, True, ["add", "remove", "new", "ready", "done", "reset", "view", "vcopy"], None if c.thorough else 60000)
    G.judge(c, t + G.rnd(c, "C08", 120), "coherence of graph views")
