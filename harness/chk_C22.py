import chk_lines
def check(c): chk_lines.run(c, [("c22_small", 4), ("c22_rnd", 4)])
