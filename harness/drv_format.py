"wrap_words, split_text_with_code, merge_columns: recorded calls."
import itertools
from drvlib import tag
from textgen import *
import big.text as T
def sub(rng, x):
    return (BB if isinstance(x, bytes) else SS)(x) if rng.random() < 0.1 else x
# ---- wrap_words
def wrap(ctx, rng, words, margin, two, b):
    rec = {"fn": "wrap", "b": int(b), "words": [cps(w) for w in words], "margin": margin, "two": int(two)}
    ws = [sub(rng, conv(w, b)) for w in words]
    kw = {}
    a = []
    if margin != 79 or rng.random() < 0.3:
        if rng.random() < 0.5: a = [margin]
        else: kw["margin"] = margin
    if not two or rng.random() < 0.3: kw["two_spaces"] = bool(two)
    it = rng.choice([list, tuple, iter, lambda l: (x for x in l)])(ws)
    ctx.case(rec, lambda: T.wrap_words(it, *a, **kw))
def wrap_small(ctx):
    rng = ctx.rng
    for t in itertools.product(["a ", "bb.", "c. ", " d", "e!\t", "\n"], repeat=3):
        if ctx.mine(): wrap(ctx, rng, list(t), rng.randrange(1, 14), rng.randrange(2), rng.random() < 0.3)
    ws = ["a", "bb", "c.", "ddd?", "\n", "\n\n"]
    for k in range(5 if not ctx.thorough else 7):
        for t in itertools.product(ws, repeat=k):
            if ctx.mine():
                for m in (rng.sample(range(1, 13), 2) if k > 2 and not ctx.thorough else range(0, 13)):
                    wrap(ctx, rng, list(t), m, rng.randrange(2), rng.random() < 0.3)
def wrap_rnd(ctx):
    rng = ctx.rng
    for i in range(700 if not ctx.thorough else 8000):
        b = rng.random() < 0.3
        def w():
            r = rng.random()
            if r < 0.12: return rng.choice(["\n", "\n\n", "\n", "\t\n", " \n", "\v", "\f\r", "\n\x1c" if not b else "\n"])
            if r < 0.2: return "    " + rng.choice(["code(x)", "for a in b:", "if x ==  y:"])
            t = "".join(rng.choice("abcde\xe9") for _ in range(rng.choice([1, 2, 3, 4, 5, 8, 20]))) + rng.choice(["", "", "", ".", "?", "!", ",", ".)", "...", ". x", ":", ";", ".\xbb", "\u203d", "\u3002", "\u2026", "\xbf"])
            if b: t = "".join(x for x in t if ord(x) < 256)
            if r > 0.9: t = rng.choice(["", " ", "   ", "\t"]) + t + rng.choice([" ", "  ", "\t", "      "])
            return t
        ws = [w() for _ in range(rng.randrange(1, 40))]
        wrap(ctx, rng, ws, rng.choice([79, 79, 20, 10, 7, 5, 1, 0, 30, 40]), rng.randrange(2), b)
# ---- split_text_with_code
def code(ctx, rng, s, b, tw=8, allow=1, ci=4, cv=1):
    rec = {"fn": "code", "b": int(b), "s": cps(s), "tw": tw, "code": allow, "ci": ci, "conv": cv}
    kw = {}
    if tw != 8 or rng.random() < 0.2: kw["tab_width"] = tw
    if not allow or rng.random() < 0.2: kw["allow_code"] = bool(allow)
    if ci != 4 or rng.random() < 0.2: kw["code_indent"] = ci
    if not cv or rng.random() < 0.2: kw["convert_tabs_to_spaces"] = bool(cv)
    v = sub(rng, conv(s, b))
    ctx.case(rec, lambda: T.split_text_with_code(v, **kw))
def code_small(ctx):
    rng = ctx.rng
    for s in strings("a \n", 6 if not ctx.thorough else 9):
        if ctx.mine(): code(ctx, rng, s, rng.random() < 0.3, ci=rng.choice([1, 2, 1]), tw=8)
    for s in strings("a\t \n", 4 if not ctx.thorough else 7):
        if ctx.mine(): code(ctx, rng, s, rng.random() < 0.3, ci=rng.choice([1, 2, 3, 4]), tw=rng.choice([1, 2, 3, 4, 8]), cv=rng.randrange(2), allow=int(rng.random() < 0.9))
    for t in itertools.product(["a", "    b", "", "   c", "\td"], repeat=5 if not ctx.thorough else 6):
        if ctx.mine() and (ctx.thorough or rng.random() < 0.5): code(ctx, rng, "\n".join(t), rng.random() < 0.3, cv=rng.randrange(2))
def code_rnd(ctx):
    rng = ctx.rng
    for i in range(500 if not ctx.thorough else 6000):
        b = rng.random() < 0.3
        def line():
            r = rng.random()
            if r < 0.2: return rng.choice(["", "", " ", "\t", "    "])
            ws = rng.choice(["", "", "", " ", "  ", "   ", "    ", "     ", "\t", " \t", "\t\t", "  \t "])
            return ws + rng.choice([" ", "  ", "\t", " \t"] if len(ws) > 3 or "\t" in ws or rng.random() < 0.7 else [" \v", "\f", "\r ", "\xa0" if not b else " ", "\u2003" if not b else "\v"]).join(rng.choice(["a", "bc", "word.", "x=1", "\xe9", "-"]) for _ in range(rng.randrange(1, 5))) + rng.choice(["", "", " ", "\t"])
        s = "\n".join(line() for _ in range(rng.randrange(0, 9)))
        code(ctx, rng, s, b, rng.choice([8, 8, 4, 3, 1]), int(rng.random() < 0.8), rng.choice([4, 4, 4, 2, 1, 8, 0]), rng.randrange(2))
# ---- merge_columns
def merge(ctx, rng, cols, sep, strat, before, after, b):
    rec = {"fn": "merge", "b": int(b), "cols": [{"text": cps(t), "max": m} for t, m in cols], "sep": cps(sep), "strategy": strat, "before": before, "after": after}
    cs = [rng.choice([tuple, list])((sub(rng, conv(t, b)), rng.randrange(0, m + 1), m)) for t, m in cols]
    kw = {}
    if sep != " " or rng.random() < 0.2: kw["column_separator"] = sub(rng, conv(sep, b))
    if strat != "raise" or rng.random() < 0.2: kw["overflow_strategy"] = {"raise": T.OverflowStrategy.RAISE, "intrude": T.OverflowStrategy.INTRUDE_ALL, "delay": T.OverflowStrategy.DELAY_ALL}[strat]
    if before or rng.random() < 0.2: kw["overflow_before"] = before
    if after or rng.random() < 0.2: kw["overflow_after"] = after
    ctx.case(rec, lambda: T.merge_columns(*cs, **kw))
def merge_small(ctx):
    rng = ctx.rng
    ls = ["", "a", "bcd"]          # bcd overflows a column of width 2
    for strat in ("intrude", "delay", "raise"):
        for k in range(1, 6 if not ctx.thorough else 7):
            for t in itertools.product(ls, repeat=k):
                if strat == "raise" and "bcd" in t and rng.random() < 0.8: continue
                if not ctx.mine(): continue
                if k > 4 and not ctx.thorough and rng.random() < 0.5: continue
                other = [("\n".join(rng.choice(["", "x", "yz"]) + str(i) for i in range(rng.choice([0, 1, 2, 4, 7]))), rng.choice([2, 3, 4])) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
                cols = [("\n".join(t), 2)] + other
                if rng.random() < 0.25: rng.shuffle(cols)
                merge(ctx, rng, cols, rng.choice([" ", " ", "", "|", " | "]), strat, rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3]), rng.random() < 0.3)
def merge_rnd(ctx):
    rng = ctx.rng
    for i in range(500 if not ctx.thorough else 6000):
        cols = []
        strat = rng.choice(["raise", "intrude", "delay", "intrude", "delay"])
        b = rng.random() < 0.3
        al = "abcdefg    " if rng.random() < 0.8 else "abc \t\v\f\r\x1c\x85\xa0" + ("" if b else "\u2028\u3000")
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4])):
            m = rng.choice([0, 1, 2, 3, 5, 8])
            p = 0.0 if strat == "raise" and rng.random() < 0.9 else rng.choice([0, 0.1, 0.3])
            def line():
                n = rng.randrange(m + 1, m + 7) if rng.random() < p else rng.randrange(0, m + 1)
                return "".join(rng.choice(al) for _ in range(n))
            cols.append(("\n".join(line() for _ in range(rng.randrange(0, 9))) + rng.choice(["", "", "\n", "\n\n"]), m))
        merge(ctx, rng, cols, rng.choice([" ", " ", "", "|", " | ", "-- ", "\t", " \t", "\v", "a b"]), strat, rng.choice([0, 0, 1, 2, 5]), rng.choice([0, 0, 1, 2, 5]), b)
# ---- long texts, wide and many columns
def wrap_bulk(ctx):
    rng = ctx.rng
    for i in range(24 if not ctx.thorough else 250):
        b = rng.random() < 0.3
        def w():
            r = rng.random()
            if r < 0.05: return rng.choice(["\n", "\n\n"])
            if r < 0.08: return "    code(x)" + "y" * rng.choice([0, 80])
            return "".join(rng.choice("abcde") for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 79, 80, 81, 120]))) + rng.choice(["", "", "", ".", "?", ","])
        wrap(ctx, rng, [w() for _ in range(rng.choice([60, 130]))], rng.choice([79, 79, 80, 100, 130, 256, 300, 1000]), rng.randrange(2), b)
def code_bulk(ctx):
    rng = ctx.rng
    for i in range(16 if not ctx.thorough else 150):
        b = rng.random() < 0.3
        def line():
            r = rng.random()
            if r < 0.2: return ""
            return rng.choice(["", "", "", "    ", "     ", "\t", " " * 12, " " * 40, "\t\t\t", "  \t "]) + rng.choice([" ", "  ", "\t"]).join(rng.choice(["a", "bc", "word.", "x=1"]) for _ in range(rng.randrange(1, 9)))
        code(ctx, rng, "\n".join(line() for _ in range(rng.choice([15, 30]))), b, rng.choice([8, 8, 4, 16, 32]), int(rng.random() < 0.8), rng.choice([4, 4, 2, 10, 20]), rng.randrange(2))
def merge_bulk(ctx):
    rng = ctx.rng
    for i in range(24 if not ctx.thorough else 250):
        strat = rng.choice(["raise", "intrude", "delay", "intrude", "delay"])
        b = rng.random() < 0.3; cols = []
        for _ in range(rng.choice([2, 3, 5, 9])):
            m = rng.choice([1, 3, 8, 20, 80])
            p = 0.0 if strat == "raise" else rng.choice([0, 0.05, 0.3])
            cols.append(("\n".join("".join(rng.choice("abcdefg  ") for _ in range(rng.randrange(m + 1, m + 9) if rng.random() < p else rng.randrange(0, m + 1))) for _ in range(rng.choice([3, 12, 30]))), m))
        merge(ctx, rng, cols, rng.choice([" ", "", "|", " | "]), strat, rng.choice([0, 0, 1, 2, 5, 12]), rng.choice([0, 0, 1, 2, 5, 12]), b)
