"gently_title, split_title_case, normalize_whitespace, combine_splits: recorded calls."
import itertools
from drvlib import tag
from textgen import *
import big.text as T, big.all as big
def sub(rng, x):
    return (BB if isinstance(x, bytes) else SS)(x) if rng.random() < 0.1 else x
def chars(rng, cs, b):
    "an iterable of one-character strings"
    v = [conv(x, b) for x in cs]
    k = rng.randrange(4)
    if k == 0: return [sub(rng, x) for x in v]
    if k == 1: return sub(rng, (b"" if b else "").join(v))
    return forms(rng, v, b)
def gently(ctx, rng, s, b, ap=None, dq=None):
    rec = {"fn": "gently", "b": int(b), "s": cps(s) if not b else list(conv(s, b)), "ap": cps(ap or ""), "dq": cps(dq or "")}
    kw = {}
    if ap or rng.random() < 0.1: kw["apostrophes"] = chars(rng, ap, b) if ap else None
    if dq or rng.random() < 0.1: kw["double_quotes"] = chars(rng, dq, b) if dq else None
    v = sub(rng, conv(s, b))
    if b and isinstance(kw.get("apostrophes"), (list, tuple, set, frozenset)): pass
    ctx.case(rec, lambda: T.gently_title(v, **kw))
def gently_small(ctx):
    rng = ctx.rng
    for s in strings("ao'\" (", 5 if not ctx.thorough else 7):
        if ctx.mine(): gently(ctx, rng, s, rng.random() < 0.3)
    for s in strings("aDx '\u2019\u201c", 4 if not ctx.thorough else 6):
        if ctx.mine(): gently(ctx, rng, s, False)
    for s in strings("ao'\"xz ", 3 if not ctx.thorough else 5):
        if ctx.mine(): gently(ctx, rng, s, rng.random() < 0.4, *rng.choice([("x", "z"), ("xz", None), (None, "xz"), ("x'", "x"), ("o", "z"), ("x", "a")]))
def gently_rnd(ctx):
    rng = ctx.rng
    for i in range(900 if not ctx.thorough else 9000):
        b = rng.random() < 0.35
        al = "aodODbZ'\"( )-.1\t\n" if b else "aodODbZ'\"( )-.1\t\n\xe9\xdf\u01c6\u01c5\u014b\u03b1\u2018\u2019\u201a\u201b\u201c\u201d\u201e\u201f\xab\xbb\u2039\u203a\x1c\x85\xa0\u2003"
        if b and rng.random() < 0.5: al += "\xe9\xc9\xa0\x85\x1c"
        if b and rng.random() < 0.5: al = "ab' \"o" + "".join(chr(x) for x in {y for q in T.apostrophes + T.double_quotes for y in q.encode("utf-8")} | {rng.randrange(256)})
        s = rstring(rng, rng.choice([al, al + "  ''\"\"ooo'", "o'd \"("]), rng.choice([4, 12, 30]))
        ap, dq = rng.choice([(None, None)] * 4 + [("x1", None), ("b", "-"), (None, ".'"), ("'", "'")])
        gently(ctx, rng, s, b, ap, dq)
def title(ctx, rng, s, b, allcaps):
    rec = {"fn": "title", "b": int(b), "s": cps(s), "allcaps": int(allcaps)}
    kw = {}
    if not allcaps or rng.random() < 0.3: kw["split_allcaps"] = rng.choice([bool(allcaps), int(allcaps)])
    v = sub(rng, conv(s, b)) if s else conv(s, b)
    ctx.case(rec, lambda: list(T.split_title_case(v, **kw)))
def title_small(ctx):
    rng = ctx.rng
    for s in strings("aB1", 7 if not ctx.thorough else 10):
        if ctx.mine(): title(ctx, rng, s, rng.random() < 0.3, rng.randrange(2))
    for i in range(300 if not ctx.thorough else 4000):
        b = rng.random() < 0.3
        al = "abAB1 \xe9\xc9" if b else "abAB1 \xe9\xc9\xdf\u01c4\u01c5\u01c6\u03b1\u0391\u0436\u0416\u4e00\u3042"
        if not b and rng.random() < 0.4: al = "abABa\u4e00'\u01c5"
        title(ctx, rng, rstring(rng, al, 20), b, rng.randrange(2))
POOL = [["x"], ["x", "xx"], ["xy", "yx"], ["x", "y"], ["xy", "y"], ["xyx", "xy"], ["ab", "ba"], ["x", "y", "xy"], ["."], ["\n", "\r\n"], ["b", "xb", "xxb"]]
TABLES = ["str_whitespace", "str_whitespace_without_crlf", "unicode_whitespace", "ascii_whitespace", "ascii_whitespace_without_crlf", "str_linebreaks", "unicode_linebreaks_without_crlf", "ascii_linebreaks"]
BTABLES = ["bytes_whitespace", "bytes_whitespace_without_crlf", "bytes_linebreaks", "bytes_linebreaks_without_crlf"]
def norm(ctx, rng, s, b, seps, table, rep):
    rec = {"fn": "norm", "b": int(b), "s": cps(s), "seps": [cps(x) for x in seps], "table": table, "rep": cps(rep)}
    kw = {}; a = []
    if table:
        default = table in ("str_whitespace", "str_whitespace_without_crlf", "bytes_whitespace", "bytes_whitespace_without_crlf")
        sp = None if default and rng.random() < 0.6 else getattr(big, table)
    else:
        v = [sub(rng, conv(x, b)) for x in seps]
        sp = forms(rng, v, b)
        if all(len(x) == 1 for x in v) and rng.random() < 0.3: sp = (b"" if b else "").join(v)
    if sp is not None:
        if rng.random() < 0.5: a = [sp]
        else: kw["separators"] = sp
    if rep != " " or rng.random() < 0.1: kw["replacement"] = conv(rep, b)
    x = sub(rng, conv(s, b))
    ctx.case(rec, lambda: T.normalize_whitespace(x, *a, **kw))
def norm_small(ctx):
    rng = ctx.rng
    for s in strings("a \n", 6 if not ctx.thorough else 8):
        if ctx.mine():
            b = rng.random() < 0.3
            norm(ctx, rng, s, b, [], rng.choice(BTABLES if b else TABLES[:5]), rng.choice([" ", " ", "", "--"]))
    for seps in POOL:
        al = "".join(sorted(set("".join(seps) + "a")))
        for s in strings(al, 5 if not ctx.thorough else 7):
            if ctx.mine() and (ctx.thorough or len(s) < 4 or rng.random() < 0.4): norm(ctx, rng, s, rng.random() < 0.3, seps, "", rng.choice([" ", "x", "", "=="]))
    ws = "\t\n\v\f\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2005\u200a\u2028\u2029\u202f\u205f\u3000a\u200bb\ufeff\u180e"
    for i in range(600 if not ctx.thorough else 6000):
        b = rng.random() < 0.3
        s = rstring(rng, (ws[:14] if b else ws) + rng.choice(["", "abcd", "  ", "\r\n"]), rng.choice([3, 8, 20]))
        if b: s = "".join(c for c in s if ord(c) < 256)
        norm(ctx, rng, s, b, [], rng.choice(BTABLES if b else TABLES), rng.choice([" ", " ", "", "\t", "ab"]))
def combine(ctx, rng, s, b, arrays):
    rec = {"fn": "combine", "b": int(b), "s": cps(s), "arrays": arrays}
    x = conv(s, b)
    def arr(a):
        out = []; i = 0
        for n in a:
            piece = x[i:i + n]
            if len(piece) < n: piece += (b"?" if b else "?") * (n - len(piece))
            out.append(sub(rng, piece)); i += n
        return rng.choice([list, tuple, iter, lambda l: (y for y in l)])(out)
    av = [arr(a) for a in arrays]
    v = sub(rng, x) if any(map(any, arrays)) else x      # (splits that split nothing: s comes back as it is)
    ctx.case(rec, lambda: list(T.combine_splits(v, *av)))
def combine_small(ctx):
    rng = ctx.rng
    def comps(n, k=0):
        if n == 0: yield []; return
        for f in range(1, n + 1):
            for r in comps(n - f): yield [f] + r
    n = 5 if not ctx.thorough else 6
    cs = list(comps(n))
    for k in (0, 1, 2):
        for t in itertools.product(cs, repeat=k):
            if ctx.mine(): combine(ctx, rng, "abcdefgh"[:n], rng.random() < 0.3, [list(a) for a in t])
    for i in range(900 if not ctx.thorough else 9000):
        n = rng.choice([0, 1, 3, 6, 10, 15])
        s = "".join(rng.choice("abc") for _ in range(n))
        arrays = []
        for _ in range(rng.choice([1, 2, 3, 3, 4, 5] if rng.random() < 0.9 else [8, 9, 10, 12, 20])):
            a = []; left = n + (rng.choice([1, 2, 5]) if rng.random() < 0.06 else -rng.randrange(0, n + 1) if rng.random() < 0.2 else 0)
            while left > 0:
                f = min(left, rng.choice([1, 1, 2, 3, 5, 8])); a.append(f); left -= f
                if rng.random() < 0.15: a.append(0)
            if rng.random() < 0.1: a.insert(0, 0)
            arrays.append(a)
        if rng.random() < 0.15 and arrays: arrays.append(list(arrays[0]))
        combine(ctx, rng, s, rng.random() < 0.3, arrays)
def gently_bulk(ctx):
    "long texts"
    rng = ctx.rng
    for i in range(60 if not ctx.thorough else 400):
        b = rng.random() < 0.35
        al = rng.choice(["aodODbZ'\"( )-.1\t\n", "ao' ", "ab \"'("] + ([] if b else ["ao \u2018\u2019\u201c\u201d'(", "\xdf\u01c6\u014b\u03b1 '"]))
        s = rstring(rng, al, rng.choice([120, 300, 700]))
        ap, dq = rng.choice([(None, None)] * 4 + [("x1", None), ("abcdefgh", "-.,;:")])
        gently(ctx, rng, s, b, ap, dq)
def bulk(ctx):
    "long texts, many splits"
    rng = ctx.rng
    for i in range(40 if not ctx.thorough else 300):
        b = rng.random() < 0.3
        title(ctx, rng, rstring(rng, rng.choice(["aB", "abAB", "aaaaaB", "AAAAAb", "ab1A "]), rng.choice([100, 260])), b, rng.randrange(2))
        s = rstring(rng, rng.choice(["a \n", "     a", "ab\r\n\t ", " "]), rng.choice([100, 260]))
        norm(ctx, rng, s, b, [], rng.choice(BTABLES if b else TABLES[:5]), rng.choice([" ", "", "--"]))
        norm(ctx, rng, rstring(rng, "abxy", 150), b, rng.choice(POOL[:7]), "", rng.choice([" ", "", "=="]))
    for i in range(24 if not ctx.thorough else 200):
        n = rng.choice([60, 150, 300])
        arrays = []
        for _ in range(rng.choice([2, 3, 5, 17, 40])):
            a = []; left = n - (rng.randrange(n) if rng.random() < 0.3 else 0)
            while left > 0:
                f = min(left, rng.choice([1, 2, 5, 30, 100])); a.append(f); left -= f
            arrays.append(a)
        combine(ctx, rng, "".join(rng.choice("abc") for _ in range(n)), rng.random() < 0.3, arrays)
