import chk_lines
def check(c): chk_lines.run(c, [("c21_small", 4), ("c21_rnd", 4)])
