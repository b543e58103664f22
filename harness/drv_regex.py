import re
from drvlib import tag
from textgen import *
import big.text as T
def st(s, neg=0): return {"k": "set", "s": sorted({ord(c) for c in s}), "neg": neg}
def sq(*a): return {"k": "seq", "a": list(a)}
def alt(*a): return {"k": "alt", "a": list(a)}
def rep(r, mn=0, mx=-1, greedy=1): return {"k": "rep", "a": [r], "min": mn, "max": mx, "greedy": greedy}
def look(r, neg=0): return {"k": "look", "a": [r], "neg": neg}
def beh(s, neg=0): return {"k": "behind", "s": [ord(c) for c in s], "neg": neg}
def bol(m=0): return {"k": "bol", "multi": m}
def eol(m=0): return {"k": "eol", "multi": m}
WB = {"k": "wordb"}; END = {"k": "end"}
def lit(s): return sq(*[st(c) for c in s])
def dot(): return st("\n", 1)
# (pattern, ast, flags, all matches have the same positive length and no context)
P = [
 ("a", lit("a"), 0, 1), ("ab", lit("ab"), 0, 1), ("aa", lit("aa"), 0, 1), ("aba", lit("aba"), 0, 1), ("aabaa", lit("aabaa"), 0, 1),
 ("[ab]", st("ab"), 0, 1), ("ab|ba", alt(lit("ab"), lit("ba")), 0, 1), ("(a)(.)", sq(st("a"), dot()), 0, 1), ("..", sq(dot(), dot()), 0, 1),
 ("aab|aba|bbb", alt(lit("aab"), lit("aba"), lit("bbb")), 0, 1), ("AB", sq(st("aA"), st("bB")), re.I, 1),
 ("a+", rep(st("a"), 1), 0, 0), ("a*", rep(st("a")), 0, 0), ("a*?", rep(st("a"), 0, -1, 0), 0, 0), ("a+?", rep(st("a"), 1, -1, 0), 0, 0),
 ("(?:ab)+", rep(lit("ab"), 1), 0, 0), ("a?b?", sq(rep(st("a"), 0, 1), rep(st("b"), 0, 1)), 0, 0), ("a{2,3}", rep(st("a"), 2, 3), 0, 0),
 ("", sq(), 0, 0), ("a|", alt(lit("a"), sq()), 0, 0), ("|a", alt(sq(), lit("a")), 0, 0), ("b|ab", alt(lit("b"), lit("ab")), 0, 0),
 ("ab|a|b", alt(lit("ab"), lit("a"), lit("b")), 0, 0), ("a|ab|abb", alt(lit("a"), lit("ab"), lit("abb")), 0, 0),
 ("abb|a|bb|b", alt(lit("abb"), lit("a"), lit("bb"), lit("b")), 0, 0),
 ("a(?=b)", sq(st("a"), look(lit("b"))), 0, 0), ("a(?!b)", sq(st("a"), look(lit("b"), 1)), 0, 0), ("(?=a)", look(lit("a")), 0, 0),
 ("(?<=a)b", sq(beh("a"), st("b")), 0, 0), ("(?<!a)b", sq(beh("a", 1), st("b")), 0, 0), ("(?<=a)", beh("a"), 0, 0),
 ("^a", sq(bol(), st("a")), 0, 0), ("a$", sq(st("a"), eol()), 0, 0), ("^", bol(), 0, 0), ("$", eol(), 0, 0), (r"a\Z", sq(st("a"), END), 0, 0),
 ("^a", sq(bol(1), st("a")), re.M, 0), ("$", eol(1), re.M, 0), (r"\b", WB, 0, 0), (r"\ba", sq(WB, st("a")), 0, 0), (r"a\b", sq(st("a"), WB), 0, 0),
 (r"[ab]+", rep(st("ab"), 1), 0, 0), (r"a.*b", sq(st("a"), rep(dot()), st("b")), 0, 0), (r"a.*?b", sq(st("a"), rep(dot(), 0, -1, 0), st("b")), 0, 0),
 (r"[^a]", st("a", 1), 0, 1), (r"[^a]*", rep(st("a", 1)), 0, 0), ("(?:a|ab)(?:c|bcd)?", sq(alt(lit("a"), lit("ab")), rep(alt(lit("c"), lit("bcd")), 0, 1)), 0, 0),
]
P += [("abc|cab|bc|a", alt(lit("abc"), lit("cab"), lit("bc"), lit("a")), 0, 0), ("abca|cac|ab", alt(lit("abca"), lit("cac"), lit("ab")), 0, 0),
 ("abcdef|efg|ab|b", alt(lit("abcdef"), lit("efg"), lit("ab"), lit("b")), 0, 0), ("ab+", sq(st("a"), rep(st("b"), 1)), 0, 0),
 ("b|a.*c|c[ab]|ab", alt(lit("b"), sq(st("a"), rep(dot()), st("c")), sq(st("c"), st("ab")), lit("ab")), 0, 0), ("c*|b", alt(rep(st("c")), lit("b")), 0, 0),
 ("a?b", sq(rep(st("a"), 0, 1), st("b")), 0, 0), ("abab|ba|a", alt(lit("abab"), lit("ba"), lit("a")), 0, 0), ("(?:ab|b)*", rep(alt(lit("ab"), lit("b"))), 0, 0),
 ("a[ab]{0,3}b|bb|a", alt(sq(st("a"), rep(st("ab"), 0, 3), st("b")), lit("bb"), lit("a")), 0, 0)]
def enc_m(m):
    if m is None: return {"some": 0, "from": 0, "to": 0, "text": []}
    g = m.group(0)
    return {"some": 1, "from": m.start() + 1, "to": m.end() + 1, "text": [ord(c) for c in g] if isinstance(g, str) else list(g)}
def enc_parts(v):
    if type(v) is not tuple or len(v) % 2 == 0: return tag(v)
    ts = {type(x) for x in v[::2]}
    if len(ts) != 1 or any(x is not None and not isinstance(x, re.Match) for x in v[1::2]): return "bad", 0
    return "parts" + ts.pop().__name__, [[[ord(c) for c in x] if isinstance(x, str) else list(x) for x in v[::2]], [enc_m(m) for m in v[1::2]]]
def enc_ms(v): return "matches", [enc_m(m) for m in v]

def one(ctx, rng, s, p, fn=None, count=None):
    pat, ast, flags, fixed = p
    b = int(rng.random() < 0.25)
    fn = fn or rng.choice(["re_partition", "re_partition", "re_rpartition", "re_rpartition", "finditer"])
    count = count or rng.choice([0, 1, 1, 2, 3, 5, 9])
    reverse = int(fn == "re_rpartition")
    sv, pv = conv(s, b), conv(pat, b)
    if rng.random() < 0.1: sv = (BB if b else SS)(sv)
    compiled = rng.random() < 0.5
    a = re.compile(pv, flags) if compiled else pv
    kw = {} if compiled or not flags else {"flags": flags}
    if fn == "re_rpartition" and rng.random() < 0.4:
        f = lambda: T.re_partition(sv, a, count, reverse=True, **kw)
    elif fn == "finditer": f = lambda: list(T.reversed_re_finditer(a, sv, **kw))
    elif count == 1 and rng.random() < 0.5: f = lambda: getattr(T, fn)(sv, a, **kw)
    else: f = lambda: getattr(T, fn)(sv, a, count, **kw)
    rec = {"fn": fn, "s": cps(s), "pat": pat, "r": ast, "b": b, "count": count, "reverse": reverse, "fixed": fixed}
    ctx.case(rec, f, enc=enc_ms if fn == "finditer" else enc_parts)

def small(ctx):
    for s in strings("ab", 5 if not ctx.thorough else 7):
        for p in P:
            if ctx.mine():
                for fn in (None, "re_partition", "re_rpartition") if ctx.thorough else (None,): one(ctx, ctx.rng, s, p, fn)
def rndalt(rng):
    "a random alternation of overlapping words, and a string made of them"
    al = rng.choice(["ab", "abc", "abcdefgh", "abcdefgh"])
    base = al * 2 if len(al) == 8 else "".join(rng.choice(al) for _ in range(10))
    words = []
    for _ in range(rng.randrange(2, 6)):
        i = rng.randrange(len(base) - 3); words.append(base[i:i + rng.choice([1, 2, 2, 3, 4, 5, 6])])
    if rng.random() < 0.3: words.append(words[0][:-1] or "b")
    i = rng.randrange(3)
    if rng.random() < 0.6:      # a long word, some of its prefixes, and words crossing its end
        j = i + rng.randrange(3, 8); w = base[i:j]
        words = [w] + [w[:rng.randrange(1, len(w))] for _ in range(rng.randrange(1, 4))] + [base[j - rng.randrange(0, len(w)):j + rng.randrange(1, 3)] for _ in range(rng.randrange(1, 3))]
        if rng.random() < 0.3: words.sort(key=len, reverse=True)
    if rng.random() < 0.5: rng.shuffle(words)
    s = (base[i:i + rng.randrange(2, 11)] + rng.choice(["", "", rng.choice(words)]) + rng.choice(al))[:13]
    return s, ("|".join(words), alt(*map(lit, words)), 0, 0)
def rnd(ctx):
    rng = ctx.rng
    for i in range(800 if not ctx.thorough else 6000):
        s, p = rndalt(rng); one(ctx, rng, s, p, rng.choice(["re_rpartition", "re_rpartition", "finditer", "re_partition"]))
    for i in range(900 if not ctx.thorough else 8000):
        al = rng.choice(["ab", "abc", "ab\n", "ab ", "aAbB", "abcd", "abc"])
        one(ctx, rng, rstring(rng, list(al) + ["ab", "aab"] + (["abcdef", "efg", "cab"] if "c" in al else []), 12), rng.choice(P))
def fixedlen(p): return p[3]
def bulk(ctx):
    "long strings: many matches, and long ones"
    rng = ctx.rng
    pats = [p for p in P if p[0] in ("a", "ab", "[ab]", "a+", "(?:ab)+", "ab|ba", "a?b?", "a|ab|abb", "^a", r"\b", "a*", "b|ab", r"[ab]+")]
    for i in range(24 if not ctx.thorough else 120):
        if not ctx.mine(): continue
        p = rng.choice(pats)
        s = "".join(rng.choice(["a", "b", "ab", "c", "\n", "a" * 40]) for _ in range(rng.choice([40, 90, 150])))[:300 if fixedlen(p) else 110]
        one(ctx, rng, s, p, rng.choice(["re_rpartition", "finditer", "re_partition"]), rng.choice([1, 30, 99, 100, 150, 300]))
