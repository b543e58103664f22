"fgrep, grep and the file name translations of big.file"
import os, re, pathlib, tempfile
from textgen import *
from drvlib import tag
from drv_regex import P
import big.file as F

def enc(v):
    if type(v) is not list: return tag(v)
    if not v: return "none found", []
    if all(type(x) is tuple and len(x) == 2 and type(x[0]) is int for x in v):
        ts = {type(x[1]) for x in v}
        if ts <= {str} or ts <= {bytes}: return "enumerated " + ts.pop().__name__, [[n, cps(s)] for n, s in v]
    ts = {type(x) for x in v}
    if ts in ({str}, {bytes}): return ts.pop().__name__, [cps(s) for s in v]
    return "other", 0

LETTERS = ["a", "b", "A", "B", "a", "b", "\n", "\n", "\n\n", " ", "\r\n", "\r", "\t", "\x0b", "\x0c", "\x1c", "\x85", "ab", "Ab"]
WIDE = ["\u2028", "\u03a3", "\u03c3", "\u03c2", "\u0391", "\u03b1", "\u03bf\u03b4\u03bf\u03c2", "\u039f\u0394\u039f\u03a3", "\xe9", "\xc9", "\u0416", "\u0436", "\U0001f600"]

def run(ctx):
    rng = ctx.rng
    d = tempfile.mkdtemp(dir=ctx.cfg["work"])
    path = os.path.join(d, "file.txt")
    def put(s, b, encoding):
        with open(path, "wb") as f: f.write(s.encode("latin-1") if b else s.encode(encoding or "utf-8"))
    def one(s, fn, text, p, b, ci, enum, encoding, badenc=0, missing=0):
        put(s, b, encoding)
        kw = {}
        if enum or rng.random() < 0.3: kw["enumerate"] = rng.choice([True, 1, "x"]) if enum else rng.choice([False, 0])
        if encoding or badenc: kw["encoding"] = encoding or "utf-8"
        where = path + ("x" if missing else "")
        a = rng.choice([where, os.fsencode(where), pathlib.Path(where)])
        rec = {"what": "grep", "fn": fn, "s": cps(s), "b": b, "enum": enum, "ci": ci, "badenc": badenc, "missing": missing, "text": [], "r": 0, "encoding": encoding or ""}
        if fn == "fgrep":
            t = conv(text, b)
            if rng.random() < 0.05: t = (BB if b else SS)(t)
            rec["text"] = cps(text)
            if ci or rng.random() < 0.3: kw["case_insensitive"] = rng.choice([True, 1]) if ci else rng.choice([False, 0])
            ctx.case(rec, lambda: F.fgrep(a, t, **kw), enc)
        else:
            pat, ast, flags, _ = p
            pv = conv(pat, b)
            rec["pat"], rec["r"] = pat, ast
            if rng.random() < 0.5: pv = re.compile(pv, flags)
            elif flags: kw["flags"] = flags
            ctx.case(rec, lambda: F.grep(a, pv, **kw), enc)
    # every small file
    for s in strings("a\n", 5 if not ctx.thorough else 7):
        for t in ("", "a", "aa", "\n"):
            if ctx.mine(): one(s, "fgrep", t, None, rng.randrange(2), rng.randrange(2), rng.randrange(2), None)
        for p in P[:1] + P[12:13] + [x for x in P if x[0] in ("^", "$", "^a", "a$")]:
            if ctx.mine(): one(s, "grep", "", p, rng.randrange(2), 0, rng.randrange(2), None)
    for s in strings("aA\n", 4 if not ctx.thorough else 6):
        for t in ("a", "A"):
            if ctx.mine(): one(s, "fgrep", t, None, rng.randrange(2), 1, rng.randrange(2), None)
    for s in strings("a\r\n", 4 if not ctx.thorough else 6):
        for t in ("", "a", "\r"):
            if ctx.mine(): one(s, "fgrep", t, None, rng.randrange(2), rng.randrange(2), rng.randrange(2), None)
    for _ in range(250 if not ctx.thorough else 4000):
        b = int(rng.random() < 0.3)
        fn = rng.choice(["fgrep", "grep"])
        wide = fn == "fgrep" and not b and rng.random() < 0.5
        s = rstring(rng, LETTERS + (WIDE if wide else []), 25)
        if fn == "grep" or b: s = "".join(c for c in s if ord(c) < 128)
        encoding = None if b else rng.choice([None, None, "utf-8", "utf-16", "utf-8-sig", "utf-32-le"])
        k = rng.random()
        if k < 0.4 and s:
            i = rng.randrange(len(s)); t = s[i:i + rng.choice([1, 1, 2, 3, 5])]
            if rng.random() < 0.3: t = "".join(c.upper() if len(c.upper()) == 1 else c for c in t)
            if b: t = "".join(c for c in t if ord(c) < 256)
        else: t = rstring(rng, LETTERS + (WIDE if wide else []), 3)
        one(s, fn, t, rng.choice(P), b, int(rng.random() < 0.5), rng.randrange(2), encoding)
        if rng.random() < 0.05: one(s, fn, t if ord(max(t or "a")) < 256 else "a", rng.choice(P), 1, 0, 0, None, badenc=1) if ord(max(s or "a")) < 256 else None
        if rng.random() < 0.03: one(s if ord(max(s or "a")) < 256 else "a", fn, "a", P[0], b, 0, 0, None, missing=1)

def names(ctx):
    rng = ctx.rng
    def one(s, bad=0):
        for fn, f in (("unix", F.translate_filename_to_unix), ("exfat", F.translate_filename_to_exfat)):
            ctx.case({"what": "name", "fn": fn, "s": cps(s) if isinstance(s, str) else [], "bad": bad, "arg": repr(s)}, lambda: f(s))
    for i in list(range(300)) + [0x2028, 0x1f600, 0xd800, 0xff0f, 0xff1a, 0x2044]:
        if ctx.mine(): one(chr(i)); one("a" + chr(i)); one(chr(i) + " b"); one(chr(i) * 2)
    for s in strings(": /-", 5 if not ctx.thorough else 6):
        if s and ctx.mine(): one(s)
    for s in strings("?.0\x00*@", 3 if not ctx.thorough else 4):
        if s and ctx.mine(): one(s)
    for _ in range(150 if not ctx.thorough else 3000):
        s = rstring(rng, list("ab .-@?:/\\*\"<>|'{}!") + ["\x00", ": ", " :", "\xe9", "\n", "\x1f", "\x7f", "..", "\u2028"], 10)
        if s: one(SS(s) if rng.random() < 0.05 else s)
    if ctx.shard == 0:
        for bad in ("", b"abc", None, 35, ["a"], b"", SS(""), pathlib.Path("x"), 0, True): one(bad, 1)
def bulk(ctx):
    "big files: more than a read buffer, long lines, hundreds of lines"
    rng = ctx.rng
    d = tempfile.mkdtemp(dir=ctx.cfg["work"])
    path = os.path.join(d, "file.txt")
    for i in range(14 if not ctx.thorough else 120):
        b = int(rng.random() < 0.3)
        if i % 2: lines = [rstring(rng, ["a", "b", "A", "x", "\r" if b else "x"], 4) for _ in range(rng.choice([120, 260]))]
        else: lines = ["x" * rng.choice([0, 1, 500, 4095, 8190, 8191, 8192]) + rng.choice(["", "a", "ab", "A"]) for _ in range(rng.choice([2, 3, 4]))]
        s = "\n".join(lines) + rng.choice(["", "\n", "\n\n"])
        enum = rng.randrange(2); ci = rng.randrange(2); t = rng.choice(["a", "ab", "aba", "xa", "A"])
        with open(path, "wb") as f: f.write(s.encode())
        rec = {"what": "grep", "fn": "fgrep", "s": cps(s), "b": b, "enum": enum, "ci": ci, "badenc": 0, "missing": 0, "text": cps(t), "r": 0, "encoding": ""}
        ctx.case(rec, lambda: F.fgrep(path, conv(t, b), enumerate=bool(enum), case_insensitive=bool(ci)), enc)
