import chk_state
def check(c): chk_state.run(c, False)
