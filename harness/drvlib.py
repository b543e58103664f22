"""Runs inside the child process that executes the real code (big, from /repo).

A driver module defines  run(ctx)  and calls  ctx.case(kind, fn, **fields)
or ctx.emit(record).  Nothing here judges the behaviour: outcomes are recorded
and judged by the TLA+ specification.
"""
import sys, os, json, signal, random, time

class CaseTimeout(BaseException):
    pass

def _alarm(signum, frame):
    raise CaseTimeout()

class Stop(BaseException):
    pass

def tag(v):
    """A value -> (type tag, JSON value whose shape is determined by the tag).  None -> ("none", 0)."""
    t = type(v)
    if v is None: return "none", 0
    if t is bool: return "bool", int(v)
    if t is int:
        return ("int", v) if abs(v) < 2**31 - 1 else ("bigint", str(v))
    if t is str: return "str", [ord(c) for c in v]
    if t is bytes: return "bytes", list(v)
    if t is float: return "float", repr(v)
    if t in (list, tuple):
        n = t.__name__
        if not v: return n + "<>", []
        tv = [tag(x) for x in v]
        ts = {a for a, b in tv}
        if len(ts) == 1: return "%s<%s>" % (n, tv[0][0]), [b for a, b in tv]
        return "%s<mixed>" % n, [{"t": a, "v": b} for a, b in tv]
    return "other:" + t.__name__, 0

def outcome(fn, enc=tag, timeout=20.0):
    """Run fn(); returns {"ok":1,"t":tag,"v":value,"exc":""} or {"ok":0,"t":"","v":0,"exc":name}."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 0.5)
    try:
        v = fn()
        try: t, v = enc(v)
        except Exception as e: t, v = "unreadable result: " + type(e).__name__, 0
        r = {"ok": 1, "t": t, "v": v}
    except CaseTimeout:
        r = {"ok": 0, "exc": "TIMEOUT", "t": "", "v": 0}
    except (KeyboardInterrupt, Stop):
        raise
    except BaseException as e:
        r = {"ok": 0, "exc": type(e).__name__, "t": "", "v": 0}
        if not isinstance(e, Exception):
            r["exc"] = "BASE:" + type(e).__name__
    finally:
        while True:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                break
            except CaseTimeout:
                continue
    if r["ok"]:
        r["exc"] = ""
    return r

class Ctx:
    def __init__(self, cfg):
        self.cfg = cfg
        self.tier = cfg["tier"]
        self.thorough = self.tier == "thorough"
        self.seed = cfg["seed"]
        self.shard = cfg.get("shard", 0)
        self.shards = cfg.get("shards", 1)
        self.rng = random.Random("%s/%s/%s" % (cfg["seed"], cfg.get("part", ""), self.shard))
        self.out = open(cfg["out"], "w")
        self.n = 0
        self.timeouts = 0
        self.t0 = time.monotonic()
        self._idx = 0

    def mine(self):
        """Static sharding of an enumeration: True for this shard's items."""
        self._idx += 1
        return (self._idx - 1) % self.shards == self.shard

    def elapsed(self):
        return time.monotonic() - self.t0

    def emit(self, rec):
        self.out.write(json.dumps(rec, separators=(",", ":")))
        self.out.write("\n")
        self.n += 1
        if self.timeouts >= 2:
            self.out.flush()
            raise Stop()

    def outcome(self, fn, enc=tag, timeout=20.0):
        # after a first time-out be quicker to give up: the verdict is clear
        if self.timeouts: timeout = min(timeout, 3 if self.timeouts < 3 else 0.5)
        r = outcome(fn, enc, timeout)
        if r["exc"] == "TIMEOUT":
            self.timeouts += 1
        return r

    def case(self, rec, fn, enc=tag, timeout=20.0):
        r = self.outcome(fn, enc, timeout)
        rec["o"] = r
        self.emit(rec)
        return r

def cps(s):
    """str or bytes -> list of code points"""
    if isinstance(s, str):
        return [ord(c) for c in s]
    return list(s)

def main():
    cfg = json.loads(sys.argv[1])
    sys.path.insert(0, cfg["repo"])
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(1, here)
    import resource
    lim = 1200 << 20
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(3000)
    import importlib
    mod = importlib.import_module(cfg["driver"])
    ctx = Ctx(cfg)
    try:
        getattr(mod, cfg.get("entry", "run"))(ctx)
    except Stop:
        pass
    ctx.out.flush()
    ctx.out.close()
    with open(cfg["out"] + ".done", "w") as f:
        f.write(str(ctx.n))

if __name__ == "__main__":
    sys.modules["drvlib"] = sys.modules["__main__"]
    main()
