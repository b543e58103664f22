"""Independent uses of the library, alone and interleaved (C37).
A task is (family, seed, member): the members of a family are calls that are alike (same text, other options)."""
import random, re, json, os, string, tempfile
from textgen import *
import big.text as T, big.deprecated as D, big.time as BT, big.builtin as BB_, big.file as F
from big.heap import Heap
from big.graph import TopologicalSorter
from big.itertools import PushbackIterator
from big.log import Log
from big.state import StateManager, accessor, dispatch
from big.scheduler import Scheduler, Regulator
from big.version import Version
from big.boundinnerclass import BoundInnerClass
import datetime, enum, types

def show(v, depth=0):
    "a value as text: equal texts, equal values"
    t = type(v)
    if v is None or t in (bool, int, float, str, bytes): return repr(v)
    if depth > 12: return "..."
    n = t.__name__
    if t in (SS, BB): return n + repr(v)
    if isinstance(v, (str, bytes)): return n + ":" + (str if isinstance(v, str) else bytes).__repr__(v)
    if isinstance(v, (list, tuple)): return n + "(" + ", ".join(show(x, depth + 1) for x in v) + ")"
    if isinstance(v, dict): return n + "{" + ", ".join(show(k, depth + 1) + ": " + show(x, depth + 1) for k, x in v.items()) + "}"
    if isinstance(v, (set, frozenset)): return n + "{" + ", ".join(sorted(show(x, depth + 1) for x in v)) + "}"
    if isinstance(v, re.Pattern): return "re(%r, %r)" % (v.pattern, v.flags)
    if isinstance(v, re.Match) or hasattr(v, "regs") and hasattr(v, "span"): return "match%r%r" % (v.span(), v.group())
    if isinstance(v, (datetime.datetime, datetime.timedelta, datetime.timezone)): return repr(v)
    if isinstance(v, enum.Enum): return str(v)
    if n == "LineInfo": return "LineInfo" + show([v.line, v.line_number, v.column_number, v.leading, v.trailing, v.end, getattr(v, "indent", None), getattr(v, "match", None)], depth + 1)
    if n == "Delimiter": return "Delimiter" + show([v.close, getattr(v, "escape", None), getattr(v, "multiline", None), getattr(v, "quoting", None), getattr(v, "open", None), getattr(v, "backslash", None)], depth + 1)
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type)): return n + " " + v.__qualname__
    if isinstance(v, Version): return repr(v)
    if isinstance(v, range): return repr(v)
    return "a " + n

WORDS = ["a", "bb", "the", "quick", "O'Neil", "x.", "end?", "fox", "don't", "iPhone", "HTTPServer", "fooBar", "Zip", "(so)", "'tis"]
def text(r, alphabet="ab ,\n", n=30): return rstring(r, alphabet, n)
FAMILIES = {}
def family(f):
    FAMILIES[f.__name__] = f
    return f
# each returns a list of members (function, arguments, keywords)
def some(r, n, fn, args, options):
    "members with the same arguments and random options"
    out = []
    for _ in range(n):
        kw = {}
        for k, vs in options.items():
            if r.random() < 0.6: kw[k] = r.choice(vs)
        out.append((fn, args, kw))
    return out

@family
def multisplit(r):
    b = r.random() < 0.3
    s = conv(text(r, "ab ,\r\n"), b)
    seps = r.choice([None, [",", " "], [" "], ["ab", "a"], ["\r\n", "\n", "\r"], [",", ", "], ["a"]])
    seps = seps and [conv(x, b) for x in seps]
    return some(r, 4, T.multisplit, (s, seps), dict(keep=[False, True, T.ALTERNATING, T.AS_PAIRS], maxsplit=[-1, 0, 1, 2], reverse=[False, True], separate=[False, True], strip=[False, True, T.LEFT, T.RIGHT, T.PROGRESSIVE]))
@family
def splits_of_several_types(r):
    s = text(r, "ab ,")
    seps = r.choice([[",", " "], ["a", "b"], [" "]])
    b = [x.encode() for x in seps]
    return [(T.multisplit, (s, seps), {}), (T.multisplit, (s.encode(), b), {}), (T.multistrip, (s, seps), {}), (T.multistrip, (s.encode(), b), {}),
            (T.multisplit, (s, seps), {"separate": True, "keep": True}), (T.multisplit, (s.encode(), b), {"separate": True, "keep": True}),
            (T.multipartition, (s, seps), {}), (T.multirpartition, (s.encode(), b), {})]
@family
def multistrip(r):
    b = r.random() < 0.3
    s = conv(text(r, "ab \t"), b); seps = [conv(x, b) for x in r.choice([[" ", "\t"], ["a"], ["ab", " "]])]
    return some(r, 3, T.multistrip, (s, seps), dict(left=[True, False], right=[True, False]))
@family
def multipartition(r):
    b = r.random() < 0.3
    s = conv(text(r, "ab, "), b); seps = [conv(x, b) for x in r.choice([[" ", ","], ["a"], ["ab", "b"]])]
    return some(r, 2, T.multipartition, (s, seps), dict(count=[0, 1, 2, 3], reverse=[False, True], separate=[False, True])) + some(r, 2, T.multirpartition, (s, seps), dict(count=[0, 1, 2], reverse=[False, True]))
@family
def re_partition(r):
    b = r.random() < 0.3
    s = conv(text(r, "ab1 "), b); p = conv(r.choice(["a", "a+", "[ab]+", "a|ab", r"\d+", r"\b", "(a)(b)?", "A"]), b)
    fl = [0, re.I]
    return some(r, 2, T.re_partition, (s, p), dict(count=[0, 1, 2, 3], flags=fl, reverse=[False, True])) + some(r, 2, T.re_rpartition, (s, p), dict(count=[1, 2], flags=fl)) \
        + some(r, 2, T.reversed_re_finditer, (p, s), dict(flags=fl)) + [(T.re_partition, (s, re.compile(p)), {"count": 2}), (T.reversed_re_finditer, (re.compile(p), s), {})]
@family
def split_quoted_strings(r):
    b = r.random() < 0.3
    s = conv(text(r, "ab'\"\\` "), b)
    q = [[conv(x, b) for x in v] for v in (["'", '"'], ["'"], ["`", "'"], ['"'])]
    return some(r, 4, T.split_quoted_strings, (s,), dict(quotes=q, escape=[conv("\\", b), conv("", b), conv("a", b)], multiline_quotes=[[], [conv("`", b)] if 0 else [], [conv("b", b)]])) \
        + some(r, 2, D.split_quoted_strings, (s,), dict(triple_quotes=[True, False]))
DELIMS = [{"(": T.Delimiter(")"), "[": T.Delimiter("]")}, {"(": T.Delimiter(")"), "'": T.Delimiter("'", quoting=True, escape="\\")},
          {"<": T.Delimiter(">"), '"': T.Delimiter('"', quoting=True, escape="\\", multiline=True)}, {"(": T.Delimiter(")"), "<": T.Delimiter("->")}]
@family
def split_delimiters(r):
    s = text(r, "ab()[]<>'\"", 16)
    out = [(T.split_delimiters, (s,), {}), (T.split_delimiters, (s.encode(), ), {"delimiters": {k.encode(): T.Delimiter(v.close.encode()) for k, v in DELIMS[0].items()}})]
    for d in DELIMS: out.append((T.split_delimiters, (s, dict(d)), {}))
    d = r.choice(DELIMS); k = r.choice(list(d))
    out.append((T.split_delimiters, (s, dict(d)), {"state": [k]}))
    out.append((D.parse_delimiters, (s,), {})); out.append((D.parse_delimiters, (s, r.choice([["()"], ["()", "<>"], ["[]", "()"]])), {}))
    return out
def chain(src, kw, ops):
    li = T.lines(src, **kw)
    for name, a, k in ops: li = (D.lines_strip_comments if name == "old" else getattr(T, "lines_" + name))(li, *a, **k)
    return li
@family
def lines(r):
    src = "".join(r.choice([" ", "\t", "    ", ""]) + r.choice(["a", "b // c", "'x' # y", "# z", "", "  ", "cc\tdd", "foo bar", '"q # r"']) + r.choice(["\n", "\n", "\r\n"]) for _ in range(r.randrange(1, 8)))
    ops = [("rstrip", (), {}), ("strip", (), {}), ("filter_empty_lines", (), {}), ("filter_line_comment_lines", (["#", "//"],), {}), ("filter_line_comment_lines", (["#"],), {}),
           ("containing", ("a",), {}), ("containing", ("a",), {"invert": True}), ("grep", ("[ab]",), {}), ("grep", ("[ab]",), {"invert": True}), ("sort", (), {}), ("sort", (), {"reverse": True}),
           ("strip_line_comments", (["#"],), {}), ("strip_line_comments", (["#", "//"],), {"quotes": ["'"]}), ("strip_line_comments", (["//"],), {"quotes": ["'"], "multiline_quotes": ['"']}),
           ("convert_tabs_to_spaces", (), {}), ("strip_indent", (), {}), ("old", (["#"],), {}), ("rstrip", ([" ", "\t"],), {}), ("strip", (["a", " "],), {})]
    out = []
    for _ in range(5):
        out.append((chain, (src, r.choice([{}, {}, {"tab_width": 4}, {"line_number": 5}, {"separators": ["\n"]}]), r.sample(ops, r.randrange(0, 4))), {}))
    return out
@family
def wrap_words(r):
    w = [r.choice(WORDS + ["\n", "\n\n", "  code"]) for _ in range(r.randrange(0, 14))]
    return some(r, 3, T.wrap_words, (w,), dict(margin=[5, 10, 20, 79], two_spaces=[True, False]))
@family
def split_text_with_code(r):
    s = "\n".join(r.choice(["", "a bb.  ccc", "    code  x", "\tcode\ty", "one two", "  "]) for _ in range(r.randrange(0, 7)))
    return some(r, 4, T.split_text_with_code, (s,), dict(tab_width=[8, 4], allow_code=[True, False], code_indent=[4, 2, 8], convert_tabs_to_spaces=[True, False])) + [(T.split_text_with_code, (s.encode(),), {})]
@family
def merge_columns(r):
    cols = tuple(("\n".join(" ".join(r.choice(WORDS) for _ in range(r.randrange(0, 3))) for _ in range(r.randrange(1, 5))), 2, r.choice([6, 10, 14])) for _ in range(r.randrange(1, 4)))
    O = T.OverflowStrategy
    return some(r, 4, T.merge_columns, cols, dict(column_separator=[" ", " | "], overflow_strategy=[O.RAISE, O.INTRUDE_ALL, O.DELAY_ALL], overflow_before=[0, 1, 2], overflow_after=[0, 1, 2]))
@family
def titles(r):
    s = " ".join(r.choice(WORDS) for _ in range(r.randrange(0, 7))); b = s.encode()
    return [(T.gently_title, (s,), {}), (T.gently_title, (b,), {}), (T.gently_title, (s,), {"apostrophes": ["'"]}), (T.gently_title, (s,), {"apostrophes": "x"}), (T.gently_title, (b,), {"double_quotes": [b"`"]}),
            (T.split_title_case, (s,), {}), (T.split_title_case, (s,), {"split_allcaps": False}), (T.split_title_case, (b,), {}), (T.gently_title, (SS(s),), {}), (T.split_title_case, (SS(s),), {})]
@family
def whitespace(r):
    s = text(r, "ab \t\n"); b = s.encode()
    return [(T.normalize_whitespace, (s,), {}), (T.normalize_whitespace, (b,), {}), (T.normalize_whitespace, (s, [" "]), {}), (T.normalize_whitespace, (s, ["a", " "], "-"), {}), (T.normalize_whitespace, (b, [b"a"], b""), {}), (T.normalize_whitespace, (s,), {"replacement": "a "}), (T.normalize_whitespace, (SS(s),), {}), (T.normalize_whitespace, (SS(s), [SS("a")]), {}), (T.multistrip, (SS(s), " "), {}), (T.multistrip, (s, " "), {})]
@family
def combine_splits(r):
    s = text(r, "abcdef", 20)
    def cut(v):
        out = []; i = 0
        while i < len(v): n = r.randrange(1, 6); out.append(v[i:i + n]); i += n
        return out
    arrays = [cut(s) for _ in range(r.randrange(1, 4))]
    return [(T.combine_splits, (s,) + tuple(arrays), {}), (T.combine_splits, (s, arrays[0]), {}), (T.combine_splits, (s, arrays[0], arrays[0]), {}), (T.combine_splits, (s + "zz",) + tuple(reversed(arrays)), {}), (T.combine_splits, (s.encode(), [x.encode() for x in arrays[0]]), {})]
EQUAL = [1, 1.0, True, "1", b"1", SS("1"), 0, False, 0.0, -0.0]           # equal, or alike, and yet different
@family
def numbers(r):
    n = r.choice([0, 1, 12, 13, 100, 101, 1000, 12345, -7, 10**6, 10**21 + 5, r.randrange(10**12)])
    v = r.choice(["1", "1.5", "x", 3.0, 2.5, None, "0x1", "inf", [1], 7])
    return some(r, 3, T.int_to_words, (n,), dict(flowery=[True, False], ordinal=[True, False])) + [(BB_.get_int, (v,), {}), (BB_.get_float, (v,), {}), (BB_.get_int_or_float, (v,), {}), (BB_.try_int, (v,), {}), (BB_.get_int, (v, 5), {}), (BB_.get_int_or_float, (v, [9]), {})] \
        + [(f, (x,), {}) for f in (BB_.get_int, BB_.get_float, BB_.get_int_or_float, BB_.try_int, BB_.try_float) for x in r.sample(EQUAL, 2)] + [(T.int_to_words, (x,), {}) for x in r.sample(EQUAL, 2)]
@family
def encode_strings(r):
    def obj(d):
        k = r.randrange(7 if d else 2)
        if k < 2: return r.choice(["a", "bc", b"d", "é"])
        if k < 4: return [obj(d - 1) for _ in range(r.randrange(3))]
        if k == 4: return tuple(obj(d - 1) for _ in range(r.randrange(3)))
        if k == 5: return {r.choice("abc"): obj(d - 1) for _ in range(r.randrange(3))}
        return {r.choice("abc") for _ in range(r.randrange(3))}
    o = obj(3)
    return [(T.encode_strings, (o,), {}), (T.encode_strings, (o, "utf-8"), {}), (T.encode_strings, (o,), {"encoding": "utf-16-le"}), (T.encode_strings, (o, "latin-1"), {})]
@family
def times(r):
    t = r.choice([0, 1, 86399, 1700000000, 951782400, 1.5, 1234567890.25, -5])
    d = datetime.datetime(2001, 2, 3, 4, 5, 6, r.choice([0, 7]), tzinfo=datetime.timezone(datetime.timedelta(minutes=r.choice([0, 330, -60]))))
    z = datetime.timezone(datetime.timedelta(hours=2))
    return [(BT.timestamp_3339Z, (t,), {}), (BT.timestamp_3339Z, (t, True), {}), (BT.timestamp_3339Z, (d,), {}), (BT.timestamp_human, (t,), {}), (BT.timestamp_3339Z, (float(t),), {}), (BT.timestamp_3339Z, (int(t),), {}), (BT.timestamp_human, (float(t),), {}), (BT.timestamp_human, (int(t),), {}), (BT.timestamp_3339Z, (int(t), False), {}),
            (BT.datetime_ensure_timezone, (d.astimezone(z), z), {}), (BT.datetime_set_timezone, (d.astimezone(z), datetime.timezone.utc), {}), (BT.datetime_set_timezone, (d, datetime.timezone.utc), {}), (BT.timestamp_3339Z, (d.astimezone(z),), {}), (BT.timestamp_human, (d, False), {}), (BT.datetime_set_timezone, (d, z), {}), (BT.datetime_ensure_timezone, (d, z), {}),
            (BT.parse_timestamp_3339Z, ("2001-02-03T04:05:06Z",), {}), (BT.parse_timestamp_3339Z, ("2001-02-03T04:05:06.5",), {"timezone": z}), (BT.parse_timestamp_3339Z, ("2001-02-03T04:05:06.5",), {})]
@family
def names(r):
    s = text(r, 'ab:/\\?*"<>| .', 12)
    return [(F.translate_filename_to_exfat, (s,), {}), (F.translate_filename_to_unix, (s,), {})]
def versions_script(vs):
    v = [Version(x) for x in vs]
    yield [str(x) for x in v]
    yield sorted(v)
    yield [hash(a) == hash(b) and a == b for a in v for b in v]
    yield [(x.release, x.epoch, x.pre if hasattr(x, "pre") else 0, x.local if hasattr(x, "local") else 0) for x in v]
@family
def versions(r):
    pool = ["1.0", "1.0.0", "1.0a1", "1.0b2.dev3", "1.0.post1", "2!0.1", "1.0+x.1", "1.0rc1", "1", "v1.0-1", "1.0.DEV"]
    return [(versions_script, (r.sample(pool, 4),), {}) for _ in range(3)] + [(Version, (r.choice(pool + ["x", "1..2"]),), {})]

# ---- objects, worked with step by step
def heap_script(vals, seed):
    r = random.Random(seed); h = Heap(list(vals)); it = iter(h); other = h.copy()
    for _ in range(8):
        k = r.randrange(8)
        try:
            if k == 0: h.append(r.randrange(9)); yield h.queue
            elif k == 1: yield h.popleft()
            elif k == 2: h.extend([r.randrange(9), 3]); yield len(h)
            elif k == 3: yield next(it, "end")
            elif k == 4: it = iter(h); yield next(it, "end")
            elif k == 5: yield h[r.randrange(-3, 3)]
            elif k == 6: h.remove(3); yield h.queue
            else: other.append(4); yield (other.queue, h == other)
        except Exception as e: yield type(e).__name__
@family
def heaps(r): return [(heap_script, ([r.randrange(9) for _ in range(r.randrange(6))], r.randrange(10**6)), {}) for _ in range(3)]
def graph_script(edges, seed):
    r = random.Random(seed); g = TopologicalSorter(); v = None
    for a, b in edges:
        g.add(a, b)
    for _ in range(8):
        k = r.randrange(8)
        try:
            if k == 0: g.add(r.choice("abcd"), r.choice("abcd")); yield len(g)
            elif k == 1: yield g.cycle() is not None
            elif k == 2: x = sorted(g.ready()); yield x; g.done(*x)
            elif k == 3: yield sorted(g.static_order())
            elif k == 4: v = g.view(); yield sorted(v.ready())
            elif k == 5: yield (v is not None) and bool(v)
            elif k == 6: g.remove(r.choice("abcd")); yield len(g)
            else: g = g.copy(); yield bool(g)
        except Exception as e: yield type(e).__name__
@family
def graphs(r): return [(graph_script, ([(r.choice("abc"), r.choice("bcd")) for _ in range(r.randrange(4))], r.randrange(10**6)), {}) for _ in range(3)]
def pushback_script(vals, seed):
    r = random.Random(seed); p = PushbackIterator(list(vals))
    for _ in range(8):
        k = r.randrange(4)
        if k == 0: p.push(r.choice([0, None, "x"])); yield "pushed"
        elif k == 1: yield p.next("none left")
        elif k == 2: yield bool(p)
        else: yield next(p, "end")
@family
def pushbacks(r): return [(pushback_script, ([r.choice([0, 1, None, "y"]) for _ in range(r.randrange(6))], r.randrange(10**6)), {}) for _ in range(3)]
def log_script(start, seed):
    r = random.Random(seed); now = [start]
    def clock(): now[0] += r.randrange(10**9); return now[0]
    l = Log(clock=clock); out = []
    for _ in range(8):
        k = r.randrange(6)
        try:
            if k == 0: l("ev"); yield "logged"
            elif k == 1: l.enter(r.choice("ab")); yield "entered"
            elif k == 2: l.exit(); yield "exited"
            elif k == 3: l.reset(); yield "reset"
            elif k == 4: yield list(l)
            else: out.clear(); l.print(print=out.append); yield list(out)
        except Exception as e: yield type(e).__name__
@family
def logs(r): return [(log_script, (r.randrange(10**9), r.randrange(10**6)), {}) for _ in range(3)]
class Fake(Regulator):
    def __init__(self): self.t = 100
    def now(self): return self.t
    def sleep(self, n): self.t += n
    def wake(self): pass
def scheduler_script(seed):
    r = random.Random(seed); g = Fake(); s = Scheduler(g); es = []; nb = s.non_blocking()
    for _ in range(8):
        k = r.randrange(6)
        try:
            if k < 2: es.append(s.schedule("e%d" % len(es), r.choice([0, 1, 5]), priority=r.choice([100, 1]))); yield [e.event for e in s.queue]
            elif k == 2: g.t += 1; yield list(s.non_blocking())
            elif k == 3: yield next(s, "end")
            elif k == 4: r.choice(es).cancel() if es else None; yield bool(s)
            else: yield next(nb, "end")
        except Exception as e: yield type(e).__name__
@family
def schedulers(r): return [(scheduler_script, (r.randrange(10**6),), {}) for _ in range(3)]
def state_script(seed):
    r = random.Random(seed); seen = []
    class S:
        def __init__(self, n): self.n = n
        def on_enter(self): seen.append("enter " + self.n)
        def on_exit(self): seen.append("exit " + self.n)
        def hello(self, x): return self.n + x
    @accessor()
    class M:
        def __init__(self): self.state_manager = StateManager(S("first"))
        @dispatch()
        def hello(self, x): ...
    m = M()
    if r.random() < 0.5: m.state_manager.observers.append(lambda sm: seen.append("seen " + sm.state.n))
    for i in range(6):
        k = r.randrange(4)
        try:
            if k < 2: m.state = S("s%d" % i); yield list(seen)
            elif k == 2: yield m.hello("!")
            else: m.state = r.choice([None, m.state]); yield "?"
        except Exception as e: yield type(e).__name__
@family
def states(r): return [(state_script, (r.randrange(10**6),), {}) for _ in range(3)]
def bound_script(seed):
    r = random.Random(seed)
    class O:
        @BoundInnerClass
        class A:
            def __init__(self, outer, x): self.outer = outer; self.x = x
        @BoundInnerClass
        class B(A.cls):
            def __init__(self, outer, x): super().__init__(x); self.y = outer
    o = [O(), O()]
    for _ in range(6):
        k = r.choice(o); n = r.choice("AB"); c = getattr(k, n)
        x = c(3)
        yield (x.outer is k, x.x, getattr(x, "y", k) is k, c is getattr(k, n), isinstance(x, O.A))
@family
def bounds(r): return [(bound_script, (r.randrange(10**6),), {}) for _ in range(2)]
def grep_script(content, seed):
    r = random.Random(seed)
    fd, p = tempfile.mkstemp(prefix="verif-pure-")
    try:
        with os.fdopen(fd, "wb") as f: f.write(content)
        for _ in range(r.randrange(2, 6)):
            k = r.randrange(5)
            if k == 0: yield F.fgrep(p, r.choice(["a", "B", ""]), case_insensitive=r.random() < 0.5, enumerate=r.random() < 0.5)
            elif k == 1: yield F.fgrep(p, r.choice([b"a", b"B"]), case_insensitive=r.random() < 0.5)
            elif k == 2: yield F.grep(p, r.choice(["a", "a.", "^b", b"a"]), flags=r.choice([0, re.IGNORECASE]), enumerate=r.random() < 0.5)
            elif k == 3: yield F.grep(p, re.compile(r.choice(["a", "a."]), r.choice([0, re.IGNORECASE])))
            else:
                yield F.file_size(p)
                with open(p, "ab") as f: f.write(r.choice([b"ab\n", b"\n", b"aB"]))
    finally: os.unlink(p)
@family
def greps(r): return [(grep_script, (r.choice([b"ab\nAx\nb\n", b"", b"aA\n\nbB"]), r.randrange(10**6)), {}) for _ in range(3)]
def virtual_script(seed):
    r = random.Random(seed)
    class A:
        @BB_.pure_virtual()
        def m(self, *a): "doc"; return 1
    class B(A):
        if seed % 2:
            def m(self, *a): return ("B", a)
    class C(B):
        if seed % 3:
            @BB_.pure_virtual()
            def m(self): "other doc"
        else:
            def m(self, *a): return ("C", super().m(*a))
    for _ in range(4):
        c = r.choice([A, B, C])
        try: v = c().m(*range(r.randrange(3)))
        except NotImplementedError: v = "refused"
        yield (c.__name__, v, c.m.__doc__)
@family
def virtuals(r): return [(virtual_script, (r.randrange(10**6),), {}) for _ in range(3)]

NAMES = sorted(FAMILIES)
def build(task):
    fam, seed, member = task
    ms = FAMILIES[fam](random.Random("%s/%s" % (fam, seed)))
    return ms[member % len(ms)]
def spoil(v):
    "the caller may do what they like with a result"
    try:
        if type(v) in (list, tuple):
            for x in v: spoil(x)
        if type(v) is dict:
            for x in v.values(): spoil(x)
        if type(v) is list: v.append("spoilt"); v.reverse()
        elif type(v) is dict: v.clear()
        elif type(v) is set: v.clear()
    except Exception: pass
class Run:
    "a task under way; shared: built by somebody else"
    def __init__(self, task, shared=None):
        self.fn, self.args, self.kw = shared or build(task)
        self.before = show([self.args, self.kw])
        self.it = None; self.over = False; self.n = 0
    def step(self):
        try:
            if self.it is None:
                v = self.fn(*self.args, **self.kw)
                if hasattr(v, "__next__") or type(v).__name__ == "lines": self.it = iter(v); return "an iterator"
                self.over = True
                s = show(v)
                # (a result may be the argument itself)
                if not any(v is a for a in list(self.args) + list(self.kw.values())): spoil(v)
                return s
            x = next(self.it)
            self.n += 1
            if self.n > 300: self.over = True
            return show(x)
        except StopIteration: self.over = True; return "end"
        except Exception as e: self.over = True; return type(e).__name__
    def after(self): return show([self.args, self.kw])

def tasks(ctx):
    "all the tasks of this check: the same for every driver"
    r = random.Random("tasks/%s" % ctx.seed)
    out = []
    for fam in NAMES:
        for _ in range(ctx.cfg["n"]):
            seed = r.randrange(10**9)
            out.append((fam, seed, len(FAMILIES[fam](random.Random("%s/%s" % (fam, seed))))))
    return out
def key(t): return "%s/%s/%s" % t
def alone(ctx):
    "each task in a process that does little else: the members of each family in an order of their own"
    res = {}
    todo = [(f, s, m) for f, s, n in tasks(ctx) for m in range(n)]
    todo = [t for t in todo if ctx.mine()]
    ctx.rng.shuffle(todo)
    for t in todo:
        def run():
            x = Run(t); out = []
            while not x.over: out.append(x.step())
            return out
        o = ctx.outcome(run, enc=lambda v: ("steps", v))
        res[key(t)] = o["v"] if o["ok"] else [o["exc"]]
    json.dump(res, open(os.path.join(ctx.cfg["work"], "alone-%d.json" % ctx.shard), "w"))
    ctx.emit({"tasks": len(res)})

def together(ctx):
    known = {}
    for i in range(ctx.cfg["parts"]): known.update(json.load(open(os.path.join(ctx.cfg["work"], "alone-%d.json" % i))))
    scheds = json.load(open(ctx.cfg["scheds"]))
    ts = tasks(ctx)
    r = ctx.rng
    byfam = {}
    for f, s, n in ts: byfam.setdefault(f, []).append((s, n))
    def history(sched, picks, shared):
        k = max(sched)
        given = [None] * k
        if shared:                                   # twins are given the very same arguments
            for a in range(k):
                for b in range(a):
                    if picks[a] == picks[b]: given[a] = given[b] = given[b] or build(picks[a])
        runs = [Run(picks[a], given[a]) for a in range(k)]
        ev = []
        def step(a):
            x = runs[a]
            if x.over: return
            o = ctx.outcome(x.step, enc=lambda v: ("text", v))
            ev.append({"op": "step", "k": a + 1, "out": o["v"] if o["ok"] else o["exc"], "before": "", "after": ""})
            if x.over or not o["ok"]:
                x.over = True
                # (the arguments of twins are looked at when all are over)
        for a in sched: step(a - 1)
        while not all(x.over for x in runs):
            for a in range(k): step(a)
        for a in range(k): ev.append({"op": "end", "k": a + 1, "out": "", "before": runs[a].before, "after": runs[a].after()})
        ctx.emit([{"alone": [known[key(t)] for t in picks], "tasks": [key(t) for t in picks]}] + ev)
    def pick(fam, k):
        s, n = r.choice(byfam[fam])
        how = r.random()
        if how < 0.25: m = r.randrange(n); return [(fam, s, m)] * k                      # the same
        if how < 0.7: return [(fam, s, r.randrange(n)) for _ in range(k)]                # alike
        out = []
        for _ in range(k):
            f = r.choice([fam, fam, r.choice(NAMES)])
            s, n = r.choice(byfam[f]); out.append((f, s, r.randrange(n)))
        return out
    for _ in range(ctx.cfg["rounds"]):
        for fam in NAMES:
            sched = r.choice(scheds)
            if not ctx.mine(): continue
            history(sched, pick(fam, max(sched)), r.random() < 0.5)
