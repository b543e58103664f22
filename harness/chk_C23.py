import chk_lines
def check(c): chk_lines.run(c, [("c23_rnd", 6)])
