"lines and its modifiers: recorded streams.  A case is a source and a chain of modifiers."
import re
from textgen import *
import big.text as T
import big.deprecated as D
from drv_regex import P as PATTERNS
from drv_quotes import collect

ATTRS = ["match", "m2", "foo"]
def enc(v):
    segs, exc = v
    ts = set(); out = []
    def text(x): ts.add(type(x).__name__); return cps(x)
    for x in segs:
        if type(x) is not tuple or len(x) != 2: return "bad", 0
        info, line, attrs, extra = x[0][0], x[1], x[0][1], x[0][2]
        if not extra: return "bad: info.lines", 0
        ms = []
        for a in ATTRS:
            # (an attribute that some lines_grep was told to use is there, if only as None)
            m = getattr(info, a) if a in attrs else getattr(info, a, None)
            ms.append([] if m is None else [m.start() + 1, m.end() + 1])
        out.append({"line": text(info.line), "num": info.line_number, "col": info.column_number, "leading": text(info.leading), "text": text(line),
                    "trailing": text(info.trailing), "end": text(info.end), "indent": info.indent, "match": ms})
    return "lines" + "+".join(sorted(ts)), {"ls": out, "exc": exc}

def build(ctx, rng, prop, src, chain, b, num=1, col=1, tw=8):
    """src: (kind, value, seps); chain: op dicts.  The real modifiers are stacked on the real lines."""
    kind, v, seps = src
    cv = lambda x: conv(x, b)
    if kind == "s":
        sv = cv(v)
        if rng.random() < 0.1: sv = (BB if b else SS)(sv)
        jv = cps(v)
    elif kind == "list": sv = rng.choice([list, tuple, iter])([cv(x) for x in v]); jv = [cps(x) for x in v]
    else: sv = rng.choice([list, tuple, iter])([rng.choice([tuple, tuple])((cv(x), cv(y))) for x, y in v]); jv = [[cps(x), cps(y)] for x, y in v]
    kw = {}
    if num != 1 or rng.random() < 0.3: kw["line_number"] = num
    if col != 1 or rng.random() < 0.3: kw["column_number"] = col
    if tw != 8 or rng.random() < 0.3: kw["tab_width"] = tw
    if seps: kw["separators"] = forms(rng, [cv(x) for x in seps], b)
    rec = {"fn": "lines", "prop": prop, "b": int(b), "src": {"kind": kind, "v": jv, "seps": [cps(x) for x in seps]},
           "num": num, "col": col, "tw": tw, "chain": [json_op(o) for o in chain]}
    attrs = {"match"} | {o.get("attr", "match") for o in chain if o["op"] == "grep"}
    def run():
        L = T.lines(sv, **kw)
        it = L
        for o in chain: it = stack(rng, it, o, b)
        res, exc = collect(it)
        ok = lambda x: type(x) is tuple and len(x) == 2
        return [(((x[0], attrs, x[0].lines is L), x[1]) if ok(x) else x) for x in res], exc
    t = "linesbytes" if b else "linesstr"
    def enc2(v):
        k, v = enc(v)
        return (t if k == "lines" else k), v
    ctx.case(rec, run, enc2)
def json_op(o):
    r = {"op": o["op"]}
    if o["op"] in ("strip", "rstrip"): r["seps"] = [cps(x) for x in o["seps"]]
    elif o["op"] == "comments":
        for k in ("markers", "quotes", "multi"): r[k] = [cps(x) for x in o[k]]
        r["esc"] = cps(o["esc"])
    elif o["op"] == "oldcomments":
        r["markers"] = [cps(x) for x in o["markers"]]
        r["quotes"] = [ord(x) for x in o["quotes"]]; r["esc"] = ord(o["esc"]); r["triple"] = o["triple"]; r["rstrip"] = o["rstrip"]
    elif o["op"] == "clip": r["n"] = o["n"]; r["side"] = o["side"]
    elif o["op"] == "grep": r["r"] = o["pat"][1]; r["invert"] = o["invert"]; r["pat"] = o["pat"][0]; r["a"] = ATTRS.index(o.get("attr", "match")) + 1
    elif o["op"] == "containing": r["t"] = cps(o["t"]); r["invert"] = o["invert"]
    elif o["op"] == "nocomment": r["markers"] = [cps(x) for x in o["markers"]]
    elif o["op"] == "sort": r["key"] = o["key"]; r["reverse"] = o["reverse"]
    return r
def marks(rng, l, b):
    "markers or quotes in one of the forms allowed"
    v = [conv(x, b) for x in l]
    return forms(rng, v, b)
def clipper(rng, it, o):
    "a custom modifier: clips up to n characters off one side, giving them or their number"
    for info, line in it:
        n = min(o["n"], len(line))
        # (nothing is left to clip, and detabbing took it: with a tab width of 0 or less)
        if not line and len(info.leading) + len(info.trailing) + len(info.end) < len(info.line): yield info, line
        elif o["side"] == "l": yield info, info.clip_leading(line, rng.choice([n, line[:n]]))
        else: yield info, info.clip_trailing(line, rng.choice([n, line[len(line) - n:]]))
KEYS = {"len": lambda t: len(t[1]), "lastfirst": lambda t: t[1][::-1], "-num": lambda t: -t[0].line_number, "text": lambda t: t[1]}
def stack(rng, it, o, b):
    k = o["op"]
    if k in ("strip", "rstrip"):
        f = T.lines_strip if k == "strip" else T.lines_rstrip
        if o["seps"]: return f(it, marks(rng, o["seps"], b))
        return f(it, None) if rng.random() < 0.3 else f(it)
    if k == "clip": return clipper(rng, it, o)
    if k == "indent": return T.lines_strip_indent(it)
    if k == "detab": return T.lines_convert_tabs_to_spaces(it)
    if k == "noempty": return T.lines_filter_empty_lines(it)
    if k == "nocomment": return (D.lines_filter_comment_lines if rng.random() < 0.2 else T.lines_filter_line_comment_lines)(it, marks(rng, o["markers"], b))
    if k == "oldcomments":
        kw = {}
        if not (o["quotes"] == ["'", '"'] and not b and rng.random() < 0.5): kw["quotes"] = marks(rng, o["quotes"], b) if o["quotes"] else rng.choice([(), None, ""])
        if o["esc"] != "\\" or b or rng.random() < 0.3: kw["backslash"] = conv(o["esc"], b)
        if not o["triple"] or rng.random() < 0.3: kw["triple_quotes"] = bool(o["triple"])
        if not o["rstrip"] or rng.random() < 0.3: kw["rstrip"] = bool(o["rstrip"])
        return D.lines_strip_comments(it, marks(rng, o["markers"], b), **kw)
    if k == "containing":
        kw = {"invert": True} if o["invert"] else {}
        return T.lines_containing(it, conv(o["t"], b), **kw)
    if k == "grep":
        pat, ast, flags, _ = o["pat"]; p = conv(pat, b); kw = {}
        if rng.random() < 0.5: p = re.compile(p, flags)
        elif flags: kw["flags"] = flags
        if o["invert"]: kw["invert"] = True
        if o.get("attr", "match") != "match" or rng.random() < 0.3: kw["match"] = o.get("attr", "match")
        return T.lines_grep(it, p, **kw)
    if k == "sort":
        kw = {}
        if o["key"] != "text" or rng.random() < 0.2: kw["key"] = KEYS[o["key"]]
        if o["reverse"] or rng.random() < 0.2: kw["reverse"] = bool(o["reverse"])
        return T.lines_sort(it, **kw)
    if k == "comments":
        kw = {}
        if o["quotes"] or rng.random() < 0.2: kw["quotes"] = marks(rng, o["quotes"], b)
        if o["multi"] or rng.random() < 0.2: kw["multiline_quotes"] = marks(rng, o["multi"], b)
        if o["esc"] != "\\": kw["escape"] = conv(o["esc"], b)
        elif b or rng.random() < 0.3: kw["escape"] = conv("\\", b)
        return T.lines_strip_line_comments(it, marks(rng, o["markers"], b), **kw)
# ---------------------------------------------------------------- generators
NLS = ["\n"] * 6 + ["\r\n", "\r", "\r\n\n", "\n\r"]
NLSU = ["\v", "\f", "\x1c", "\x1d", "\x1e", "\x85", "\u2028", "\u2029"]
def source(rng, ls, b, plain=False):
    "a source made of these lines"
    r = rng.random()
    nl = lambda: rng.choice(NLS if b or rng.random() < 0.85 else NLSU)
    if plain or r < 0.65:
        out = "".join(x + nl() for x in ls[:-1]) + (ls[-1] if ls else "")
        if rng.random() < 0.5: out += nl()
        return ("s", out, [])
    if r < 0.75: return ("list", ls, [])
    if r < 0.85: return ("pairs", [(x, rng.choice(["\n", "", "|", "\r\n"])) for x in ls], [])
    seps = rng.choice([["|"], ["|", "||"], ["\n", "|"], [";", "|;"]])
    return ("s", "".join(x + rng.choice(seps) for x in ls), seps)
WSU = [" ", "\t", " ", "\t", "\x1f", "\xa0", "\u2003"]
WSB = [" ", "\t", " ", "\t", "\v", "\f"]
def wline(rng, b, words=("a", "b", "ab", "c d", "\xe9")):
    w = WSB if b else WSU
    ws = lambda n: "".join(rng.choice(w) for _ in range(rng.randrange(n + 1)))
    r = rng.random()
    if r < 0.1: return ""
    if r < 0.2: return ws(4)
    return ws(3) + rng.choice(words) + (ws(2) + rng.choice(words) if rng.random() < 0.4 else "") + ws(2)
SEPS = [["x"], [" "], ["\t", " "], ["a", " "], ["x", "y"], ["ab"], ["--"], ["\t"], ["-", "="], ["a", "ab"]]
def strip_op(rng):
    return {"op": rng.choice(["strip", "rstrip"]), "seps": rng.choice(SEPS) if rng.random() < 0.5 else []}
def comments_op(rng, quoted=None):
    if quoted is None: quoted = rng.random() < 0.6
    q, m = rng.choice([(["'"], []), (["'", '"'], []), ([], ["'"]), (["'"], ["'''"]), (["'"], ['"']), ([], ["'''", '"']), (['"'], ['"""']), (["'"], ["''"])] + [(["'", '"', "`"], ["<<", "[["]), ([], ["'", '"', "`"]), (["'"], ['"', "`", "~~", "''"]), ([], ["'", "'''", "''", '"'])]) if quoted else ([], [])
    return {"op": "comments", "markers": rng.choice([["#"], ["//"], ["#", "//"], [";", "#"], ["/", "//"], ["--"], ["a"], ["a "], ["# ", "b"], [" "], ["\t", "#"], ["  "]]), "quotes": q, "multi": m,
            "esc": rng.choice(["\\"] * 6 + ["^", ""])}
PAR = lambda rng: dict(num=rng.choice([1, 1, 1, 0, 5, 100]), col=rng.choice([1, 1, 1, 0, 3, 10]), tw=rng.choice([8, 8, 4, 3, 1, 2]))
def indented(rng, legal, b):
    "lines with mostly legal indents, as tab/space mixtures"
    tw = rng.choice([8, 8, 4, 3, 2, 1]); cols = [0]; out = []
    for _ in range(rng.randrange(1, 9)):
        r = rng.random()
        if r < 0.2: out.append(rng.choice(["", " ", "\t", "   ", "\t "])); continue
        if r < 0.5: cols.append(cols[-1] + rng.choice([1, 2, 3, 4, 8]))
        elif r < 0.75 and len(cols) > 1:
            for _ in range(rng.randrange(1, len(cols))): cols.pop()
            if not legal and rng.random() < 0.15: cols[-1] += rng.choice([-1, 1]) if cols[-1] else 0
        n = cols[-1]; s = ""
        while len(s.expandtabs(tw)) < n:
            w = len(s.expandtabs(tw)); t = (w // tw + 1) * tw
            if t <= n and rng.random() < 0.5: s += "\t"
            else: s += " "
        out.append(s + rng.choice(["a", "b c", "x\ty", "#"]) + rng.choice(["", "", " "]))
    return out, tw
def clip_op(rng): return {"op": "clip", "side": rng.choice("lt"), "n": rng.choice([0, 0, 1, 1, 2, 3, 9])}
def c20_small(ctx):
    rng = ctx.rng
    for s in strings(" \ta\n", 4 if not ctx.thorough else 6):
        for chain in ([{"op": "strip", "seps": []}], [{"op": "rstrip", "seps": []}], [{"op": "strip", "seps": ["a"]}], [{"op": "strip", "seps": [" ", "a"]}], [{"op": "rstrip", "seps": ["a", "\t"]}, {"op": "strip", "seps": []}],
                      [{"op": "indent"}], [{"op": "detab"}, {"op": "rstrip", "seps": []}], [{"op": "comments", "markers": ["a"], "quotes": [], "multi": [], "esc": "\\"}], [], [clip_op(rng)], [clip_op(rng), clip_op(rng)], [{"op": "strip", "seps": []}, clip_op(rng)]):
            if ctx.mine() and (ctx.thorough or rng.random() < 0.8): build(ctx, rng, "C20", ("s", s, []), chain, rng.random() < 0.3, **PAR(rng))
    for s in strings("ab", 6 if not ctx.thorough else 9):
        for seps in (["aa"], ["ab", "ba"], ["aba", "b"], ["ab", "a"]):
            if len(s) > 2 and ctx.mine() and (ctx.thorough or rng.random() < 0.7):
                build(ctx, rng, "C20", ("list", [s], []), [{"op": rng.choice(["strip", "strip", "rstrip"]), "seps": seps}], rng.random() < 0.3)
    # line ends made of characters the lines hold, too
    for s in strings(" \r\n", 5 if not ctx.thorough else 7):
        for seps in (["\r\n"], [" \n", "\r"], ["\n "], ["\r\r\n", "\n"]):
            if ctx.mine() and (ctx.thorough or len(s) < 3 or rng.random() < 0.5):
                build(ctx, rng, "C20", ("s", s, seps), [rng.choice([{"op": "strip", "seps": []}, {"op": "rstrip", "seps": []}, {"op": "strip", "seps": ["\r", " ", "\n"]}, {"op": "indent"}, clip_op(rng)])], rng.random() < 0.3)
    for s in strings(" a", 4):
        for e in (" ", "a", "a ", "  ", "aa"):
            if ctx.mine(): build(ctx, rng, "C20", ("pairs", [(s, e), (s + " ", e)], []), [rng.choice([{"op": "strip", "seps": []}, {"op": "rstrip", "seps": ["a", " "]}, {"op": "strip", "seps": ["a", " "]}, {"op": "strip", "seps": ["a"]}, clip_op(rng)])], rng.random() < 0.3)
def c20_rnd(ctx):
    rng = ctx.rng
    for i in range(800 if not ctx.thorough else 8000):
        b = rng.random() < 0.3
        words = ["a", "b", "ab", "c d", "\xe9", "x", "xx", "--", "# c", "'q#'", "a\tb", "xyx"]
        chain = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            r = rng.random()
            chain.append(strip_op(rng) if r < 0.4 else clip_op(rng) if r < 0.5 else {"op": "indent"} if r < 0.65 else comments_op(rng, rng.random() < 0.2) if r < 0.85 else {"op": "detab"} if r < 0.93 else {"op": "noempty"})
        if any(o["op"] == "indent" for o in chain) and rng.random() < 0.7: ls, tw = indented(rng, True, b)
        else: ls, tw = [wline(rng, b, words) for _ in range(rng.randrange(0, 6))], None
        par = PAR(rng)
        if not any(o["op"] == "indent" for o in chain) and rng.random() < 0.2: par["tw"] = rng.choice([0, 0, -1, 16])
        if tw: par["tw"] = tw
        build(ctx, rng, "C20", source(rng, ls, b), chain, b, **par)
class Lines1: pass
LOBJ = [Lines1(), Lines1()]
def objects(ctx):
    "LineInfo and lines as their constructors are given"
    rng = ctx.rng
    PAT, MAT = re.compile("a"), re.match("a", "a")
    def val(v):
        "(the tagged value, as the specification has it)"
        for i, l in enumerate(LOBJ):
            if v is l: return {"t": "obj", "v": i}
        if v is PAT: return {"t": "pattern", "v": 0}
        if v is MAT: return {"t": "match", "v": 0}
        if type(v) in (str, bytes): return {"t": type(v).__name__, "v": cps(v)}
        if type(v) is int: return {"t": "int", "v": v}
        if v is None: return {"t": "none", "v": 0}
        return {"t": "other", "v": 0}
    NO = {"t": "-", "v": 0}
    others = [1.0, "1", [1], (), {}, 2.5, object()]
    def mk(bad):
        b = rng.randrange(2)
        tx = lambda: conv(rng.choice(["", "a", " ", "\n", "ab"]), b)
        a = {"lines": rng.choice(LOBJ), "line": tx(), "num": rng.choice([0, 1, 7]), "col": rng.choice([0, 1, 5])}
        for k in ("leading", "trailing", "end"):
            r = rng.random()
            if r < 0.4: a[k] = tx()
            elif r < 0.5: a[k] = None
        if rng.random() < 0.5: a["indent"] = rng.choice([0, 1, 3, -1])
        if rng.random() < 0.3: a["match"] = rng.choice([None, None, PAT, MAT])
        if rng.random() < 0.5: a["mine"] = rng.choice([0, 1, "", "x", None])
        if bad:
            k = rng.choice(["line", "num", "col", "leading", "trailing", "end", "indent", "match"])
            if k == "line": a[k] = rng.choice([1, None, [b"a"], ("a",), 2.5])
            elif k in ("leading", "trailing", "end"): a[k] = rng.choice([conv("a", not b), conv("", not b), 1, 0, [], 2.5])
            elif k == "match": a[k] = rng.choice(["a", 1, b"a", object(), 0, ""])
            else: a[k] = rng.choice([1.0, "1", [1], None, 2.5, 0.0, ""])
        return a
    NAMES = {"num": "line_number", "col": "column_number"}
    KEYS = ("lines", "line", "num", "col", "leading", "trailing", "end", "indent", "match", "mine")
    def make(a): return T.LineInfo(a["lines"], a["line"], a["num"], a["col"], **{k: v for k, v in a.items() if k not in ("lines", "line", "num", "col")})
    def js(a, keys): return {k: val(a[k]) if k in a else NO for k in keys}
    def at(o, keys, names): return {k: val(getattr(o, names.get(k, k))) if hasattr(o, names.get(k, k)) else NO for k in keys}
    for i in range(700 if not ctx.thorough else 7000):
        if not ctx.mine(): continue
        a = mk(rng.random() < 0.4)
        a2 = dict(a) if rng.random() < 0.6 else mk(False)
        if rng.random() < 0.5:
            k = rng.choice(KEYS)
            x = mk(False)
            if k in x: a2[k] = x[k]
            else: a2.pop(k, None)
        def run():
            o = make(a)
            try: o2 = make(a2)
            except Exception: return o, 2
            e = o == o2
            return o, (int(e) if e == (not (o != o2)) and e == (o2 == o) else 3)
        ctx.case({"fn": "info", "a": js(a, KEYS), "a2": js(a2, KEYS), "args": repr((a, a2))[:300]}, run,
                 lambda v: ("info" if type(v[0]) is T.LineInfo else "other", {"at": at(v[0], KEYS, NAMES), "eq": v[1]}))
    LN = {"num": "line_number", "col": "column_number", "tw": "tab_width", "mine": "mine"}
    for i in range(300 if not ctx.thorough else 3000):
        if not ctx.mine(): continue
        a = {}
        for k in ("num", "col", "tw"):
            r = rng.random()
            if r < 0.5: a[k] = rng.choice([0, 1, 3, 8])
            elif r < 0.6: a[k] = rng.choice([1.0, "1", [1], None, 2.5])
        if rng.random() < 0.5: a["mine"] = rng.choice([0, 1, "", "x", None])
        b = rng.randrange(2)
        sk = rng.choice(["text", "text", "list", "other"])
        s = {"text": lambda: conv(rng.choice(["", "a\nb"]), b), "list": lambda: rng.choice([[], ["a"], [b"a", b"b"], [("a", "\n")], ()]), "other": lambda: rng.choice([1, None, 2.5, object()])}[sk]()
        kw = {LN[k]: v for k, v in a.items()}
        seps = rng.random() < 0.3
        if seps: kw["separators"] = rng.choice([(conv("x", b),), [conv("x", b), conv("\n", b)]])
        rec = js(a, ("num", "col", "tw", "mine")); rec["s"] = {"t": sk, "v": 0}; rec["seps"] = {"t": "given", "v": 0} if seps else NO
        ctx.case({"fn": "linesobj", "a": rec, "args": repr((s, kw))[:300]}, lambda: T.lines(s, **kw),
                 lambda v: ("lines" if type(v) is T.lines else "other", {"at": at(v, ("num", "col", "tw", "mine"), LN)}))
def c21_small(ctx):
    rng = ctx.rng
    ws = ["", " ", "  ", "\t", " \t", "   "]
    import itertools
    n = 4 if not ctx.thorough else 5
    for k in range(n + 1):
        for t in itertools.product(["a", " a", "  a", "\ta", "   a", ""], repeat=k):
            if ctx.mine(): build(ctx, rng, "C21", ("s", "\n".join(t), []), [{"op": "indent"}], rng.random() < 0.3, tw=rng.choice([1, 2, 2, 3, 3, 8]), col=rng.choice([1, 1, 0, 4]))
def c21_rnd(ctx):
    rng = ctx.rng
    for i in range(900 if not ctx.thorough else 8000):
        b = rng.random() < 0.3
        ls, tw = indented(rng, rng.random() < 0.6, b)
        pre = rng.choice([[], [], [], [{"op": "rstrip", "seps": []}], [{"op": "detab"}], [{"op": "noempty"}], [comments_op(rng, False)]])
        post = rng.choice([[], [], [], [{"op": "rstrip", "seps": []}], [{"op": "noempty"}]])
        if rng.random() < 0.2: tw = rng.choice([8, 4, 3, 2, 1])
        build(ctx, rng, "C21", source(rng, ls, b), pre + [{"op": "indent"}] + post, b, num=rng.choice([1, 1, 0, 7]), col=rng.choice([1, 1, 0, 5]), tw=tw)
def c22_small(ctx):
    rng = ctx.rng
    ops = [{"op": "comments", "markers": ["#"], "quotes": q, "multi": m, "esc": e} for q, m, e in
           [(["'"], [], "\\"), ([], ["'"], "\\"), (["'"], ["''"], "\\"), (["'"], ["'''"], "\\"), ([], [], "\\"), ([], ["'"], "")]]
    for s in strings("a#'\n", 5 if not ctx.thorough else 7):
        for o in ops:
            if ctx.mine() and (ctx.thorough or len(s) < 5 or rng.random() < 0.4): build(ctx, rng, "C22", ("s", s, []), [o], rng.random() < 0.3)
    for s in strings("\\#'\n", 4 if not ctx.thorough else 6):
        for o in ops[:3]:
            if ctx.mine(): build(ctx, rng, "C22", ("s", s, []), [o], rng.random() < 0.3)
def legal_quotes(rng, o):
    "text whose quotes are closed (mostly), with comment markers in and out of them, over several lines"
    qs = o["quotes"] + o["multi"]; out = ""
    for _ in range(rng.randrange(2, 8)):
        r = rng.random()
        if r < 0.25: out += rng.choice(["a", "b ", " ", "x y"])
        elif r < 0.4: out += "\n"
        elif r < 0.55: out += rng.choice(o["markers"]) + rng.choice(["", " c", rng.choice(qs), rng.choice(qs) + "d"]) + "\n"
        else:
            q = rng.choice(qs)
            body = ["a", rng.choice(o["markers"]), " "] + [x for x in qs if x not in q and q not in x] + ([o["esc"] + q, o["esc"] + o["esc"]] if o["esc"] else [])
            if q in o["multi"]: body += ["\n", "\n", "\n\n"]
            out += q + "".join(rng.choice(body) for _ in range(rng.randrange(5))) + (q if rng.random() < 0.95 else "")
    return out
def c22_rnd(ctx):
    rng = ctx.rng
    for i in range(900 if not ctx.thorough else 8000):
        b = rng.random() < 0.3
        o = comments_op(rng, rng.random() < 0.85)
        qs = o["quotes"] + o["multi"]
        toks = ["a", "b", " "] + o["markers"] + qs * 2 + [x + "c" + x for x in qs] * 2 + [x + o["markers"][0] + x for x in qs] * 2 + [o["esc"] + x for x in qs + [o["esc"]]] + ["\\", "//", "#"]
        ls = []
        for _ in range(rng.randrange(1, 5)): ls.append("".join(rng.choice(toks) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8]))))
        if qs and rng.random() < 0.5: ls = legal_quotes(rng, o).split("\n")
        pre = rng.choice([[], [], [], [{"op": "rstrip", "seps": []}], [{"op": "strip", "seps": []}]]); post = rng.choice([[], [], [{"op": "rstrip", "seps": []}]])
        build(ctx, rng, "C22", source(rng, ls, b), pre + [o] + post, b, num=rng.choice([1, 1, 0, 7]), col=rng.choice([1, 1, 0, 5]))
def c33_lines(ctx):
    rng = ctx.rng
    Q = [["'", '"'], ["'"], [], ['"']]
    for s in strings("a#' ", 5 if not ctx.thorough else 7):
        for q in Q[:3]:
            for triple in (0, 1):
                if (triple and not ("'" * 3 in s and q)) or not ctx.mine(): continue
                if not ctx.thorough and len(s) == 5 and rng.random() < 0.6: continue
                build(ctx, rng, "C33", ("list", [s], []), [{"op": "oldcomments", "markers": ["#"], "quotes": q, "esc": "\\", "triple": triple, "rstrip": rng.randrange(2)}], rng.random() < 0.3)
    for i in range(500 if not ctx.thorough else 5000):
        b = rng.random() < 0.3
        o = {"op": "oldcomments", "markers": rng.choice([["#"], ["//"], ["#", "//"], [";", "#"], ["/", "//"], ["--"], ["a"]]), "quotes": rng.choice(Q), "esc": rng.choice(["\\"] * 4 + ["^"]), "triple": rng.choice([1, 1, 0]), "rstrip": rng.choice([1, 1, 0])}
        qs = o["quotes"] or ["'"]
        toks = ["a", "b", " ", "  ", "\t"] + o["markers"] * 2 + qs * 2 + [x * 3 for x in qs] + [x + "c" + x for x in qs] * 2 + [x + o["markers"][0] + x for x in qs] * 2 + [o["esc"] + x for x in qs + [o["esc"]]] + ["\\", "//", "#"] + ([] if b else ["\xa0", "\x1f"])
        ls = ["".join(rng.choice(toks) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8]))) for _ in range(rng.randrange(1, 5))]
        pre = rng.choice([[], [], [], [{"op": "rstrip", "seps": []}], [{"op": "strip", "seps": []}]]); post = rng.choice([[], [], [{"op": "strip", "seps": []}]])
        build(ctx, rng, "C33", source(rng, ls, b), pre + [o] + post, b, num=rng.choice([1, 1, 0, 7]), col=rng.choice([1, 1, 0, 5]))
def filter_op(rng):
    r = rng.random()
    if r < 0.35: return {"op": "grep", "pat": rng.choice(PATTERNS), "invert": rng.randrange(2), "attr": rng.choice(["match", "match", "m2", "foo"])}
    if r < 0.55: return {"op": "containing", "t": rng.choice(["a", "ab", "", " ", "b", "xx", "A"]), "invert": rng.randrange(2)}
    if r < 0.65: return {"op": "noempty"}
    if r < 0.8: return {"op": "nocomment", "markers": rng.choice([["#"], ["//"], ["#", "//"], [";", "#"], ["a"], ["a", "bb"], ["/", "//"], [".", "*"], ["(", "ab"], ["# "], ["a "], ["a b", "b "], ["ab\t"]])}
    return {"op": "sort", "key": rng.choice(["text", "text", "len", "lastfirst", "-num"]), "reverse": rng.randrange(2)}
def c23_rnd(ctx):
    rng = ctx.rng
    for i in range(1500 if not ctx.thorough else 10000):
        b = rng.random() < 0.3
        al = rng.choice([["a", "b"], ["a", "b", " ", "\t"], ["a", "A", "b", "#"], ["#", "/", "a", " ", ";"], ["b", "a", "bb", " ", ".", "(", "*"]] + ([] if b else [["a", "\xa0", "\u2003", "#", "b"]]))
        ls = ["".join(rng.choice(al) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5]))) for _ in range(rng.randrange(0, 8))]
        chain = [filter_op(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < 0.1:     # one match after another, in the same attribute or in others
            at = rng.choice(ATTRS)
            for _ in range(2): chain.insert(rng.randrange(len(chain) + 1), {"op": "grep", "pat": rng.choice(PATTERNS), "invert": int(rng.random() < 0.4), "attr": at if rng.random() < 0.7 else rng.choice(ATTRS)})
        if rng.random() < 0.15: chain.insert(rng.randrange(len(chain) + 1), strip_op(rng))
        build(ctx, rng, "C23", source(rng, ls, b), chain, b, num=rng.choice([1, 1, 0, 7]), col=rng.choice([1, 1, 0, 5]))
def bulk(ctx):
    "many lines, long lines, deep indents"
    rng = ctx.rng; prop = ctx.cfg["prop"]
    for i in range(4 if not ctx.thorough else 40):
        b = rng.random() < 0.3
        par = dict(num=rng.choice([1, 1, 250, 99990]), col=rng.choice([1, 1, 300]), tw=rng.choice([8, 8, 4, 3]))
        n = rng.choice({"C20": [20, 30], "C21": [40, 60], "C22": [60, 80], "C23": [60, 150, 280]}[prop])
        if prop == "C21":
            ls = []; cols = [0]
            while len(ls) < n:
                r = rng.random()
                if r < 0.75 - (len(ls) > n // 2) * 0.4: cols.append(cols[-1] + rng.choice([1, 1, 2]))
                elif r < 0.9 and len(cols) > 1:
                    for _ in range(rng.randrange(1, min(len(cols), rng.choice([2, 3, 100])))): cols.pop()
                ls.append(rng.choice([" " * cols[-1] + "a"] * 6 + ["", "  "]))
            build(ctx, rng, prop, ("s", "\n".join(ls), []), [{"op": "indent"}], b, **par)
        elif prop == "C22":
            o = comments_op(rng, rng.random() < 0.85); qs = o["quotes"] + o["multi"]
            toks = ["a", "b" * 20, " "] + [x + "c" + x for x in qs] * 3 + [x + o["markers"][0] + x for x in qs] * 2 + [o["esc"] + x for x in qs]
            ls = ["".join(rng.choice(toks) for _ in range(rng.choice([2, 4, 9]))) + rng.choice(["", "", o["markers"][0] + " c"]) for _ in range(n // 4)]
            if o["multi"]: ls[5:5] = [o["multi"][0]] + ["x" + o["markers"][0]] * 40 + [o["multi"][0]]
            build(ctx, rng, prop, ("s", "\n".join(ls), []), [o], b, **par)
        elif prop == "C23":
            ls = ["".join(rng.choice("ab# ") for _ in range(rng.choice([0, 1, 2, 3]))) for _ in range(n)]
            build(ctx, rng, prop, ("s", "\n".join(ls), []), [filter_op(rng)], b, **{k: par[k] for k in ("num", "col")})
        else:
            ls = [rng.choice(["", " ", "\t"]) * rng.randrange(6) + rng.choice(["a", "a b\t", "x" * 30, "ab\t" * rng.choice([2, 20]), "\t" * rng.choice([2, 20]) + "z"]) + rng.choice(["", " ", "\t "]) for _ in range(n // 2)]
            build(ctx, rng, prop, ("s", "\n".join(ls), []), [rng.choice([strip_op(rng), clip_op(rng), {"op": "detab"}, comments_op(rng, False)]) for _ in range(2)], b, **par)
