"""A controlled world of threads: a fresh copy of the standard threading module built on locks whose every
operation is a scheduling point, a fake clock, and a scheduler that runs one thread at a time.

Time advances only when every thread is blocked (to the earliest deadline), or by an explicit adv()."""
import sys, time, _thread, importlib.util, types
REAL = types.SimpleNamespace(allocate_lock=_thread.allocate_lock, get_ident=_thread.get_ident, start_new_thread=_thread.start_new_thread,
                             monotonic=time.monotonic, sleep=time.sleep)
CTL = None

class Abort(BaseException): pass

class Worker:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = REAL.allocate_lock(); self.sem.acquire()
        self.pred = None; self.deadline = None; self.blocked = False; self.done = False

class Controller:
    def __init__(self, choose, log, files, opcodes=False, maxsteps=20000):
        self.choose, self.log, self.files, self.opcodes, self.maxsteps = choose, log, files, opcodes, maxsteps
        self.now = 0.0; self.steps = 0; self.aborted = False; self.workers = []; self.cur = None
        self.finished = REAL.allocate_lock(); self.finished.acquire()
        self.byident = {}
    def me(self): return self.byident.get(REAL.get_ident())
    def runnable(self, w):
        if w.done: return False
        if not w.blocked: return True
        return w.pred() or (w.deadline is not None and w.deadline <= self.now)
    def pick(self):
        while True:
            c = [w for w in self.workers if self.runnable(w)]
            if c: return c
            live = [w for w in self.workers if not w.done]
            if not live: return []
            dl = [w.deadline for w in live if w.deadline is not None]
            if not dl:
                self.log({"e": "dead"}); self.abort(); return []
            self.now = min(dl)
            self.log({"e": "quiet", "t": int(self.now) if self.now == int(self.now) else -999})
    def abort(self):
        self.aborted = True
    def switch(self, w, me):
        if w is me: return
        self.cur = w
        w.sem.release()
        me.sem.acquire()
    def point(self, me=None):
        "a scheduling point of a running thread"
        me = me or self.me()
        if me is None: return
        if self.aborted:
            raise Abort()
        self.steps += 1
        if self.steps > self.maxsteps:
            self.log({"e": "livelock"}); self.abort(); raise Abort()
        c = [w for w in self.workers if self.runnable(w)]
        self.switch(self.choose(self, me, c), me)
        if self.aborted: raise Abort()
    def block(self, pred, deadline):
        me = self.me()
        me.pred, me.deadline, me.blocked = pred, deadline, True
        try:
            c = self.pick()
            if self.aborted: raise Abort()
            self.steps += 1
            if self.steps > self.maxsteps:
                self.log({"e": "livelock"}); self.abort(); raise Abort()
            self.switch(self.choose(self, None, c) if me not in c or len(c) > 1 else me, me)
            if self.aborted: raise Abort()
        finally:
            me.pred = me.deadline = None; me.blocked = False
    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files: return None
        if self.opcodes: frame.f_trace_opcodes = True
        return self.local
    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line") and not self.aborted: self.point()
        return self.local
    def body(self, w):
        w.sem.acquire()
        self.byident[REAL.get_ident()] = w
        try:
            if not self.aborted:
                sys.settrace(self.tracer)
                w.fn()
        except Abort: pass
        finally:
            sys.settrace(None)
            w.done = True
            if self.aborted:
                live = [x for x in self.workers if not x.done]
                if live: live[0].sem.release()
                else: self.finished.release()
            else:
                c = self.pick()
                if c: n = self.choose(self, None, c); self.cur = n; n.sem.release()
                else:
                    live = [x for x in self.workers if not x.done]
                    if live: live[0].sem.release()         # aborted in pick
                    else: self.finished.release()
    def run(self, fns):
        global CTL
        self.workers = [Worker(i, f) for i, f in enumerate(fns)]
        CTL = self
        for w in self.workers: REAL.start_new_thread(self.body, (w,))
        self.cur = self.workers[0]
        self.choose(self, None, self.workers).sem.release()
        ok = self.finished.acquire(True, 60)
        CTL = None
        if not ok: self.log({"e": "stuck"})
        return ok

class Lock:
    def __init__(self): self.held = False
    def acquire(self, blocking=True, timeout=-1):
        c = CTL; me = c and c.me()
        if me is None:
            if self.held and blocking: raise RuntimeError("deadlock outside the controlled threads")
            if self.held: return False
            self.held = True; return True
        if c.aborted:        # cleaning up
            raise Abort()
        if timeout is None or (timeout < 0 and timeout != -1): raise ValueError("bad timeout")
        c.point(me)
        deadline = None if timeout == -1 else c.now + timeout
        while self.held:
            if not blocking: return False
            if deadline is not None and deadline <= c.now: return False
            c.block(lambda: not self.held, deadline)
        self.held = True
        return True
    def release(self):
        if not self.held: raise RuntimeError("release unlocked lock")
        self.held = False
        c = CTL
        if c and not c.aborted and c.me(): c.point()
    def locked(self): return self.held
    def __enter__(self): self.acquire(); return True
    def __exit__(self, *a): self.release()
    acquire_lock, release_lock, locked_lock = acquire, release, locked
    def _at_fork_reinit(self): self.held = False

def sleep(d):
    c = CTL; me = c and c.me()
    if me is None: return REAL.sleep(d)
    if d < 0: raise ValueError("sleep length must be non-negative")
    c.point(me)
    if d > 0: c.block(lambda: False, c.now + d)
def monotonic():
    c = CTL
    return c.now if c and c.me() else (c.now if c else 0.0)

def install():
    "Returns a function that imports a module in the controlled world."
    fake = types.ModuleType("_thread")
    for k in dir(_thread):
        if not k.startswith("__"): setattr(fake, k, getattr(_thread, k))
    fake.allocate_lock = fake.allocate = Lock; fake.LockType = Lock; fake._set_sentinel = Lock
    del fake.RLock
    real_t, real_th = sys.modules.get("threading"), sys.modules["_thread"]
    sys.modules["_thread"] = fake
    src = importlib.util.find_spec("threading").origin
    text = open(src).read()
    mod = types.ModuleType("threading"); mod.__file__ = src
    time.monotonic, time.sleep = monotonic, sleep
    time.perf_counter = monotonic
    def imp(name):
        sys.modules["threading"] = mod; sys.modules["_thread"] = fake
        try: return importlib.import_module(name)
        finally:
            sys.modules["_thread"] = real_th
            if real_t: sys.modules["threading"] = real_t
            else: del sys.modules["threading"]
    # RLock: without the C implementation threading falls back to the Python one
    fake.RLock = None
    sys.modules["threading"] = mod
    try: exec(compile(text, src, "exec"), mod.__dict__)
    finally:
        sys.modules["_thread"] = real_th
        if real_t: sys.modules["threading"] = real_t
        else: del sys.modules["threading"]
    return imp
