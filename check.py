#!/opt/venv/bin/python
"""usage: check.py <property> [quick|thorough]      (run in /verif)

Decides one property of /repo with the TLA+ specification in spec/.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import os, sys, importlib, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import core

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = core.Check(pid, tier, seed)
    try:
        mod = importlib.import_module("chk_" + pid)
        mod.check(c)
        rc = c.finish()
    except core.Machinery as e:
        if c.violations:            # the code already misbehaved: report that
            rc = c.finish()
        else:
            print("MACHINERY FAILURE: %s" % e); rc = 2
            if not os.environ.get("VERIF_KEEP"): c.cleanup()
    except BaseException:
        traceback.print_exc(); rc = 2
        if not os.environ.get("VERIF_KEEP"): c.cleanup()
    sys.exit(rc)

main()
