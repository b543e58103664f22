"""The orchestrator's library: run drivers (real code) and TLC (the specification)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")

def tail(lines):
    return "\n".join([l[:500] for l in lines if not l.startswith('"{')][-25:])

class Machinery(Exception):
    "The machinery (not the code under test) failed."

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.monotonic()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []       # dicts: what, detail
        self.known = []
        self.notes = {}
        self.exhaustive = False
        self.assumptions = []

    # ---------- the real code
    def drive(self, driver, entry="run", shards=1, part="", timeout=None, python=PY, **extra):
        """Runs harness/<driver>.py's entry in child processes; returns the list of records."""
        procs = []
        if timeout is None: timeout = 3600 if self.thorough else 500
        for s in range(shards):
            out = os.path.join(self.work, "%s-%s-%s-%d.ndjson" % (driver, entry, part, s))
            cfg = dict(driver=driver, entry=entry, tier=self.tier, seed=self.seed, shard=s, shards=shards,
                       part=part, out=out, repo=REPO, work=self.work)
            cfg.update(extra)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(self.seed % 1000 + s), TZ="UTC", LC_ALL="C.UTF-8")
            env.pop("PYTHONPATH", None)
            p = subprocess.Popen([python, "-B", "-X", "pycache_prefix=" + os.path.join(self.work, "pyc"),
                                  os.path.join(VERIF, "harness", "drvlib.py"), json.dumps(cfg)],
                                 stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 env=env, cwd=self.work, start_new_session=True)
            procs.append((p, out, s))
        recs = []
        deadline = time.monotonic() + timeout
        for p, out, s in procs:
            try:
                text, _ = p.communicate(timeout=max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                try: os.killpg(p.pid, 9)
                except OSError: p.kill()
                text, _ = p.communicate()
                text += b"\n[killed: driver timeout]"
            n = 0
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        if line.endswith("\n"):
                            recs.append(json.loads(line)); n += 1
            if not os.path.exists(out + ".done"):
                self.violation("the driver running the real code died", {"driver": driver, "entry": entry, "shard": s,
                               "rc": p.returncode, "records": n, "output": text.decode("utf-8", "replace")[-4000:]})
        return recs

    # ---------- TLC
    def tlc(self, module, cfg, env=None, workers=8, timeout=None, heap="6g", args=()):
        """Runs TLC on spec/<module>.tla with the given cfg text.  Returns (rc, output lines, generated, distinct)."""
        if timeout is None: timeout = 3600 if self.thorough else 400
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = os.path.join(d, "m.cfg")
        with open(cfgp, "w") as f: f.write(cfg)
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-cp", TLAJARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock",
               "-checkpoint", "0", "-config", cfgp] + list(args) + [os.path.join(SPEC, module + ".tla")]
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as fo:
            try:
                rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Machinery("TLC timed out on " + module)
        with open(outp) as f: lines = f.read().split("\n")
        gen = dist = 0
        for l in lines:
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
            if m: gen, dist = int(m.group(1)), int(m.group(2))
        return rc, lines, gen, dist

    def model(self, module, cfg, env=None, **kw):
        """Model-check a configuration of the specification itself.  A failure is a failure of the spec, i.e. machinery."""
        rc, lines, gen, dist = self.tlc(module, cfg, env, **kw)
        if rc != 0:
            raise Machinery("TLC found an error in %s (rc %d):\n%s" % (module, rc, tail(lines)))
        self.states += dist
        self.transitions += gen
        return lines

    def batch(self, module, cfg, recs, what, env=None, key="Verdict", chunk=None, **kw):
        """Judge records (pure cases) by operator Verdict of module (see Batch.tla)."""
        if not recs:
            raise Machinery("no records to judge for " + what)
        path = os.path.join(self.work, "cases-%s-%d.ndjson" % (module, len(os.listdir(self.work))))
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r, separators=(",", ":"))); f.write("\n")
        n = len(recs)
        rc, lines, gen, dist = self.tlc(module, cfg, dict(env or {}, CASES=path, CHUNK=str(max(1, n // 64))), **kw)
        if rc != 0 or dist != n:
            raise Machinery("TLC failed judging %s with %s (rc %d, %d of %d):\n%s" % (what, module, rc, dist, n, tail(lines)))
        self.states += dist; self.transitions += gen; self.traces += n
        bad = [(b[1] - 1, ", ".join(b[2])) for b in parse_bad(lines)]
        for i, clause in sorted(bad):
            self.violation(what + ": " + clause, recs[i])
        return bad

    def histories(self, module, cfg, traces, what, env=None, **kw):
        """Judge recorded histories (lists: [header, ev, ev, ...]) by Clauses/After of module (see TraceBatch.tla)."""
        if not traces:
            raise Machinery("no traces to judge for " + what)
        path = os.path.join(self.work, "traces-%s-%d.ndjson" % (module, len(os.listdir(self.work))))
        with open(path, "w") as f:
            for r in traces:
                f.write(json.dumps({"h": r[0], "ev": r[1:]}, separators=(",", ":"))); f.write("\n")
        rc, lines, gen, dist = self.tlc(module, cfg, dict(env or {}, TRACES=path), **kw)
        if rc != 0:
            raise Machinery("TLC failed judging %s with %s (rc %d):\n%s" % (what, module, rc, tail(lines)))
        bad = [(b[1] - 1, b[2], ", ".join(b[3])) for b in parse_bad(lines)]
        badat = {i: l for i, l, _ in bad}
        want = sum(badat[i] if i in badat else len(t) for i, t in enumerate(traces))
        if dist != want:
            raise Machinery("TLC visited %d states, expected %d, judging %s\n%s" % (dist, want, what, tail(lines)))
        self.states += dist; self.transitions += gen; self.traces += len(traces)
        for i, l, clause in sorted(bad):
            t = traces[i]
            self.violation(what + ": event %d: %s" % (l, clause), {"header": t[0], "history": t[1:l + 1]})
        return bad

    # ---------- verdict
    def violation(self, what, detail):
        self.violations.append({"what": what, "detail": detail})

    def sample(self, recs, k=3):
        import random
        r = random.Random(self.seed)
        if len(recs) > k: recs = r.sample(recs, k)
        for x in recs:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def finish(self):
        kf = load_known(self.pid)
        fresh = []
        hit = {}
        for v in self.violations:
            k = match_known(kf, v)
            if k is None: fresh.append(v)
            else: hit.setdefault(k["id"], (k, []))[1].append(v)
        for k in kf:
            if k["id"] in hit:
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.pid, k["what"], len(hit[k["id"]][1])))
        wall = time.monotonic() - self.t0
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:12] or ["none"], exhaustive=self.exhaustive)
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if fresh:
            fresh.sort(key=lambda v: len(json.dumps(v["detail"])))
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, violations=fresh[:50], total=len(fresh)), f, indent=1)
            for v in fresh[:3]:
                print("  " + v["what"][:400]); print("    " + json.dumps(v["detail"])[:900])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            rc = 1
        print("%s %s: %d states, %d transitions, %d traces/cases of the real code judged, %d violations, %.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, len(fresh), wall))
        self.cleanup()
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

def parse_bad(lines):
    return [json.loads(json.loads(l)) for l in lines if l.startswith('"[\\"BAD')]

def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["known"] if k["property"] == pid]

def match_known(kf, v):
    for k in kf:
        m = k["match"]
        if re.search(m["what"], v["what"]) and any(_sub(d, v["detail"]) for d in m["details"]):
            return k
    return None

def _sub(pattern, detail):
    "pattern (a dict) is contained in detail"
    if isinstance(pattern, dict):
        return isinstance(detail, dict) and all(k in detail and _sub(pv, detail[k]) for k, pv in pattern.items())
    return pattern == detail

# ---------- walking a transition graph printed by TLC
def parse_edges(lines):
    """EDGE lines printed by an MC module as ToJson strings: {"s":..,"e":..,"t":..} -> adjacency."""
    edges = []
    for l in lines:
        if l.startswith('"{') :
            edges.append(json.loads(json.loads(l)))
        elif l.startswith('{"s"'):
            edges.append(json.loads(l))
    return edges

def walks(edges, init, rng, maxlen=60, limit=None):
    """Paths from init that together cover every edge; each path is a list of e."""
    key = lambda s: json.dumps(s, sort_keys=True)
    adj = {}
    for e in edges:
        adj.setdefault(key(e["s"]), {})[json.dumps(e["e"], sort_keys=True)] = (e["e"], key(e["t"]))
    k0 = key(init)
    if k0 not in adj: raise Machinery("initial state has no edges")
    todo = {s: list(d.values()) for s, d in adj.items()}
    for l in todo.values(): rng.shuffle(l)
    # BFS tree from the initial state
    par = {k0: None}; order = [k0]
    for s in order:
        for e, t in adj.get(s, {}).values():
            if t not in par:
                par[t] = (s, e); order.append(t)
    def path(s):
        r = []
        while par[s]: s, e = par[s]; r.append(e)
        return r[::-1]
    out = []; covered = 0
    for s0 in order:
        while todo.get(s0):
            p = path(s0); s = s0
            while todo.get(s) and len(p) < maxlen:
                e, t = todo[s].pop(); p.append(e); s = t; covered += 1
                if not todo.get(s):
                    # look one step ahead for a neighbour with uncovered edges
                    nb = [(e2, t2) for e2, t2 in adj.get(s, {}).values() if todo.get(t2)]
                    if nb and len(p) + 1 < maxlen:
                        e2, t2 = rng.choice(nb); p.append(e2); s = t2
            out.append(p)
            if limit and len(out) >= limit: return out, covered, sum(map(len, adj.values()))
    return out, covered, sum(map(len, adj.values()))

def trace_cfg(prefix, extra=""):
    return """INIT TraceInit
NEXT TraceNext
VIEW TView
CONSTANT Init0 <- %sInit0
CONSTANT Clauses <- %sClauses
CONSTANT After <- %sAfter
""" % (prefix, prefix, prefix) + extra

def batch_cfg(verdict, extra=""):
    return """INIT BatchInit
NEXT BatchNext
INVARIANT Judged
CONSTANT Verdict <- %s
""" % verdict + extra
