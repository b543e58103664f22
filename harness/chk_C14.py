import chk_split
def check(c): chk_split.run(c)
