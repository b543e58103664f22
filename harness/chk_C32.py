import core
def check(c):
    c.model("TimeMC", "INIT Init\nNEXT Next\nINVARIANT Agree\nINVARIANT Epoch\nINVARIANT Ordered\nINVARIANT Back\nINVARIANT ZShown\nINVARIANT ZFolds\nINVARIANT ZBalance\nCONSTANTS FirstYear = %d\n LastYear = %d\n"
            % ((1900, 2309) if not c.thorough else (1000, 9999)))
    r = c.drive("drv_time", shards=8)
    c.sample(r, 3)
    c.batch("TimeBatch", core.batch_cfg("TVerdict"), r, "timestamps")
    c.assumptions = ["the local time zone has a fixed offset, or summer time by a POSIX rule (years from 1971)", "years 1000 to 9999"]
