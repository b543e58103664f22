"""Histories of the big.file helpers on real file trees.

Everything happens in a scratch directory, in a child process that is an unprivileged user when we are root."""
import json, os, random, stat, sys, shutil, tempfile, time, pathlib, math
from big.file import safe_mkdir, safe_unlink, touch, pushd, file_size, file_mtime, file_mtime_ns
from drvlib import CaseTimeout

CONTENTS = [b"", b"one", b"two\nlines\n", b"\x00" * 5000]

class Boom(Exception): pass

class Tree:
    def __init__(self, ctx, root, rng):
        self.ctx, self.root, self.rng = ctx, root, rng
        self.n = 0
    def abs(self, p): return os.path.join(self.root, *p)
    def nodes(self):
        out = []
        def walk(p):
            full = self.abs(p)
            for name in sorted(os.listdir(full)):
                q = p + [name]; f = self.abs(q)
                if os.path.islink(f):
                    t = os.path.relpath(os.readlink(f), self.root).split("/")
                    out.append({"p": q, "k": "link", "c": 0, "t": [] if t == ["."] else t})
                elif os.path.isdir(f):
                    out.append({"p": q, "k": "dir", "c": 0, "t": []})
                    walk(q)
                else:
                    with open(f, "rb") as h: b = h.read()
                    out.append({"p": q, "k": "file", "c": CONTENTS.index(b) if b in CONTENTS else 99, "t": []})
        walk([])
        return out
    def cwd(self):
        try: d = os.getcwd()
        except OSError: return self.lastcwd
        r = os.path.relpath(d, self.root)
        self.lastcwd = [] if r == "." else r.split("/")
        return self.lastcwd
    def prepare(self):
        "give every node a distinct, old (or future) modification time"
        self.times = {}
        base = self.rng.choice([10**9, 10**9, int(time.time()) + 10**6, 50, -5000])
        for i, p in enumerate([[]] + [x["p"] for x in self.nodes()]):
            ns = (base + i) * 10**9 + self.rng.randrange(64) * 15625000
            os.utime(self.abs(p), ns=(ns, ns), follow_symlinks=False)
            self.times[tuple(p)] = ns
    def lock(self):
        "give some of the files unusual permissions; what a helper does to a file does not depend on them"
        self.modes = {}
        for x in self.nodes():
            if x["k"] == "file" and self.rng.random() < 0.3:
                m = self.rng.choice([0o444, 0o400, 0o000, 0o222, 0o755])
                os.chmod(self.abs(x["p"]), m)
                self.modes[tuple(x["p"])] = m
    def unlock(self):
        "put them back; 1 if a file that is still there has lost its permissions"
        lost = 0
        for p, m in self.modes.items():
            try: st = os.lstat(self.abs(p))
            except OSError: continue
            if not stat.S_ISREG(st.st_mode): continue
            if st.st_mode & 0o7777 != m: lost = 1
            os.chmod(self.abs(p), 0o644)
        return lost
    def record(self, **e):
        fs = self.nodes()
        m = []
        now = time.time_ns()
        for p in [[]] + [x["p"] for x in fs]:
            t = os.lstat(self.abs(p)).st_mtime_ns
            if t != self.times.get(tuple(p)):
                m.append([p, "cur" if abs(now - t) < 100 * 10**9 else "other"])
        e.update(fs=fs, m=m, cwd=self.cwd())
        self.ev.append(e)
    def spell(self, p, dironly=False):
        a = self.abs(p)
        k = self.rng.randrange(8)
        try: cwd = os.getcwd()
        except OSError: cwd = None
        if cwd and k in (0, 1, 2, 3): a = os.path.relpath(a, cwd)
        if k == 1: return pathlib.Path(a)
        if k in (2, 4): return os.fsencode(a)
        if k == 5: return pathlib.Path(a)
        if k == 6 and p and (dironly or os.path.isdir(a)): return a + "/"
        return a
    def alive(self):
        try: os.getcwd()
        except OSError: return False
        return True
    # ---- one history
    def history(self, ops, setup=()):
        for name in os.listdir(self.root):
            f = os.path.join(self.root, name)
            if os.path.isdir(f) and not os.path.islink(f): shutil.rmtree(f)
            else: os.unlink(f)
        os.chdir(self.root); self.lastcwd = []
        self.ev = []
        for e in setup: self.env(e)
        self.made = {p: pushd(self.abs(p)) for p in ((), ("a",), ("b",), ("a", "a")) if self.rng.random() < 0.4}
        self.ops, self.i = ops, 0
        h = {"fs": self.nodes(), "cwd": self.cwd()}
        while self.i < len(self.ops): self.run()
        os.chdir(self.root)
        self.ctx.emit([h] + self.ev)
    def run(self):
        while self.i < len(self.ops):
            e = self.ops[self.i]; self.i += 1
            if callable(e): e = e(self)
            if e is None: continue
            if e["op"] == "leave": return e
            if e["op"] == "enter":
                if self.alive(): self.enter(e["p"])
            else: self.do(e)
        return {"how": "normal"}
    def enter(self, p):
        exc = self.rng.choice([Boom, ValueError, OSError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration])("boom")
        inside = False
        how, prop = "normal", 0
        self.prepare()
        try:
            d = self.made.get(tuple(p))      # pushd objects may be made early and used again, also within themselves
            if d is None or self.rng.random() < 0.4: d = pushd(self.spell(p))
            if self.rng.random() < 0.2: self.made[tuple(p)] = d = pushd(self.abs(p))
            with d:
                inside = True
                self.record(op="enter", p=p, o={"ok": 1})
                how = self.run()["how"]
                self.prepare()
                if how == "raise": raise exc
        except CaseTimeout: raise
        except BaseException as x:
            if not inside:
                self.record(op="enter", p=p, o={"ok": 0})
                return
            prop = 1 if x is exc else 2
        self.record(op="leave", how=how, prop=prop)
    def env(self, e):
        op, f = e["op"], self.abs(e["p"])
        try:
            if op == "write":
                if os.path.islink(f): return
                with open(f, "wb") as h: h.write(CONTENTS[e.get("c", 1)])
            elif op == "link": os.symlink(self.abs(e["t"]), f)
            elif op == "dir": os.mkdir(f)
            elif op == "rmdir": os.rmdir(f)
            elif op == "rm": os.unlink(f)
            elif op == "chdir": os.chdir(f)
        except OSError:
            pass
    def do(self, e):
        op = e["op"]
        if op in ("mkdir", "unlink", "touch"):
            self.prepare()
            fn = {"mkdir": safe_mkdir, "unlink": safe_unlink, "touch": touch}[op]
            a = self.spell(e["p"], op == "mkdir" and not os.path.lexists(self.abs(e["p"])))
            self.lock()
            o = self.ctx.outcome(lambda: fn(a))
            lost = self.unlock()
            self.record(op=op, p=e["p"], o=o, lost=lost)
        elif op == "stat":
            self.prepare()
            f = self.abs(e["p"])
            want = {"sz": 0, "s": 0, "f": 0, "n": 0}
            if os.path.exists(f):
                r = os.path.realpath(f)
                r = os.path.relpath(r, self.root)
                ns = self.times[() if r == "." else tuple(r.split("/"))]
                want = {"sz": 0, "s": ns // 10**9, "f": ns % 10**9 // 15625000, "n": ns % 10**9}
                if os.path.isfile(f):
                    with open(f, "rb") as h: want["sz"] = len(h.read())
            a = self.spell(e["p"])
            self.lock()
            def encf(v):
                if type(v) is not float: return "other", 0
                s = math.floor(v); x = (v - s) * 64
                return ("tuple<int>", [s, int(x)]) if x == int(x) else ("other", 0)
            def encn(v):
                return ("tuple<int>", [v // 10**9, v % 10**9]) if type(v) is int else ("other", 0)
            r = dict(size=self.ctx.outcome(lambda: file_size(a)),
                     mt=self.ctx.outcome(lambda: file_mtime(a), encf), ns=self.ctx.outcome(lambda: file_mtime_ns(a), encn))
            lost = self.unlock()
            self.record(op="stat", p=e["p"], want=want, lost=lost, **r)
        else:
            self.env(e)
            self.times = {}
            self.record(**e)

def contained(ctx, body):
    "run body(root) in a child process that owns nothing but a scratch directory"
    scratch = tempfile.mkdtemp(prefix="verif-file-")
    root = os.path.join(os.path.realpath(scratch), "root")
    os.mkdir(root)
    if os.getuid() == 0:
        os.chown(root, 65534, 65534); os.chmod(scratch, 0o755)
    ctx.out.flush()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            if os.getuid() == 0:
                os.setgroups([]); os.setgid(65534); os.setuid(65534)
            os.umask(0o022)
            body(root)
            rc = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            ctx.out.flush(); sys.stdout.flush(); sys.stderr.flush()
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if st: raise SystemExit("the contained process failed")

FIXED = [dict(op="dir", p=["a"]), dict(op="dir", p=["a", "a"]), dict(op="dir", p=["b"]), dict(op="write", p=["a", "b"]),
         dict(op="link", p=["b", "b"], t=["a", "a"])]

def replay(ctx):
    paths = [p for p in json.load(open(ctx.cfg["paths"])) if ctx.mine()]
    def body(root):
        for ops in paths:
            t = Tree(ctx, root, ctx.rng)
            t.history(ops, FIXED if ctx.cfg["mode"] == "pushd" else ())
    contained(ctx, body)

def rnd(ctx):
    rng = ctx.rng
    def path(t):
        if rng.random() < 0.6:
            have = [x["p"] for x in t.nodes()]
            if have:
                p = rng.choice(have)
                return p + [rng.choice("abc")] if rng.random() < 0.4 else p
        return [rng.choice("abc") for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 5]))]
    def op(t):
        k = rng.random()
        p = path(t)
        if k < 0.45: return {"op": rng.choice(["mkdir", "unlink", "touch"]), "p": p}
        if k < 0.55: return {"op": "stat", "p": p}
        if k < 0.70: return {"op": "enter", "p": p}
        if k < 0.80: return {"op": "leave", "how": rng.choice(["normal", "raise"])}
        if k < 0.85: return {"op": "chdir", "p": p}
        if k < 0.92: return {"op": "write", "p": p, "c": rng.randrange(4)} if p else None
        if k < 0.97:
            q = path(t)
            return {"op": "link", "p": p, "t": q} if p else None
        if not p or any(e for e in t.saved() if e == p): return None
        return {"op": rng.choice(["rm", "rmdir"]), "p": p}
    def body(root):
        Tree.saved = stack
        for n in range(60 if not ctx.thorough else 600):
            t = Tree(ctx, root, rng)
            t.history([op] * rng.choice([10, 30, 60]))
    def stack(self):
        out, cwd = [], []
        for e in self.ev:
            if e["op"] == "enter" and e["o"]["ok"]: out.append(cwd)
            if e["op"] == "leave": out.pop()
            cwd = e["cwd"]
        return out
    contained(ctx, body)
