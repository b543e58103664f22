------------------------------- MODULE Lines -------------------------------
(* lines and the lines modifiers (properties C20, C21, C22, C23).  A stream *)
(* of lines is [ls, exc]: the lines, and the exception that ends it ("" if  *)
(* none).  Each modifier maps a stream to a stream; a chain of modifiers is *)
(* their composition.                                                       *)
(* A line is [line, num, col, leading, text, trailing, end, indent, match]: *)
(* the original line with its terminator, its number, the column where text *)
(* starts, what was stripped before and after text, the terminator, the     *)
(* indent level, and for each of three attributes ("match" and two others)  *)
(* the span of the match lines_grep left in it (<<>> for None).             *)
EXTENDS Regex, Quotes, Split
Ws(b) == IF b = 1 THEN AsciiWs ELSE StrWs
\* the column reached after s, starting at column i of a line; tab stops every tw columns
RECURSIVE Width(_, _, _)
Width(s, i, tw) == IF s = <<>> THEN i
                   ELSE Width(Tail(s), IF s[1] = 9 THEN (IF tw <= 0 THEN i ELSE i + tw - (i % tw)) ELSE i + 1, tw)
RECURSIVE Expand(_, _, _)
Expand(s, i, tw) == IF s = <<>> THEN <<>>
                    ELSE IF s[1] = 9 THEN LET j == Width(<<9>>, i, tw) IN [k \in 1..(j - i) |-> 32] \o Expand(Tail(s), j, tw)
                    ELSE <<s[1]>> \o Expand(Tail(s), i + 1, tw)
\* ---- lines
Line0(c, n, text, end) == [line |-> text \o end, num |-> n, col |-> c.col, leading |-> <<>>, text |-> text,
                           trailing |-> <<>>, end |-> end, indent |-> 0, match |-> <<<<>>, <<>>, <<>>>>]
SrcSeps(c) == IF c.src.seps # <<>> THEN Range(c.src.seps) ELSE Table(IF c.b = 1 THEN "bytes_linebreaks" ELSE "str_linebreaks")
SrcPairs(c) == IF c.src.kind = "pairs" THEN c.src.v
               ELSE IF c.src.kind = "list" THEN [i \in 1..Len(c.src.v) |-> <<c.src.v[i], <<>>>>]
               ELSE LET a == Alternating(c.src.v, SrcSeps(c), TRUE, FALSE, -1)
                    IN [i \in 1..(Splits(a) + 1) |-> <<a[2 * i - 1], IF i <= Splits(a) THEN a[2 * i] ELSE <<>>>>]
Source(c) == LET p == SrcPairs(c) IN [ls |-> [i \in 1..Len(p) |-> Line0(c, c.num + i - 1, p[i][1], p[i][2])], exc |-> ""]
\* ---- clipping: l.text loses its first i and its last j characters.  A line stripped to
\* nothing has all its original text in trailing, and its original column.
Clip(c, l, i, j) ==
  IF i = 0 /\ j = 0 THEN l
  ELSE IF i + j >= Len(l.text)
  THEN [l EXCEPT !.text = <<>>, !.leading = <<>>, !.trailing = To(l.line, Len(l.line) - Len(l.end)), !.col = c.col]
  ELSE LET lead == l.leading \o To(l.text, i) IN
       [l EXCEPT !.text = SubSeq(l.text, i + 1, Len(l.text) - j), !.leading = lead,
                 !.trailing = From(l.text, Len(l.text) - j + 1) \o l.trailing,
                 !.col = c.col + Width(lead, 0, c.tw)]
\* a custom modifier that clips op.n characters (or as many as there are) off one side
ClipN(c, op, l) == LET n == IF op.n < Len(l.text) THEN op.n ELSE Len(l.text) IN
                   IF op.side = "l" THEN Clip(c, l, n, 0) ELSE Clip(c, l, 0, n)
\* number of leading/trailing characters of s in W
RECURSIVE LeadIn(_, _), TrailIn(_, _)
LeadIn(s, W) == IF s # <<>> /\ s[1] \in W THEN 1 + LeadIn(Tail(s), W) ELSE 0
TrailIn(s, W) == IF s # <<>> /\ s[Len(s)] \in W THEN 1 + TrailIn(To(s, Len(s) - 1), W) ELSE 0
StripLine(c, op, l, left) ==
  IF op.seps = <<>>
  THEN LET i == IF left THEN LeadIn(l.text, Ws(c.b)) ELSE 0 IN Clip(c, l, i, TrailIn(From(l.text, i + 1), Ws(c.b)))
  ELSE LET S == Range(op.seps)
           i == IF left THEN LStripN(l.text, 1, S) ELSE 0
       IN Clip(c, l, i, Len(l.text) - i - Len(Strip1(From(l.text, i + 1), S, FALSE, TRUE)))
Each(st, F(_)) == [st EXCEPT !.ls = [i \in 1..Len(st.ls) |-> F(st.ls[i])]]
Only(st, P(_)) == [st EXCEPT !.ls = SelectSeq(st.ls, P)]
Strip(c, op, st) == LET F(l) == StripLine(c, op, l, op.op = "strip") IN Each(st, F)
Detab(c, st) == LET F(l) == [l EXCEPT !.text = Expand(l.text, 0, c.tw)] IN Each(st, F)
\* ---- lines_strip_indent.  cols: the columns of the enclosing indents, outermost first.
\* Blank lines wait for the next non-blank line.
RECURSIVE Indent(_, _, _, _, _, _)
Indent(c, st, i, cols, blank, out) ==
  IF i > Len(st.ls)
  THEN [ls |-> IF st.exc = "" THEN out \o [k \in 1..Len(blank) |-> [blank[k] EXCEPT !.indent = 0]] ELSE out, exc |-> st.exc]
  ELSE LET l == st.ls[i]
           n == LeadIn(l.text, Ws(c.b))
           m == Clip(c, l, n, 0)
           back == SelectSeq(cols, LAMBDA x : x <= m.col)
           cols2 == IF m.col = c.col THEN <<>>
                    ELSE IF cols = <<>> \/ m.col > cols[Len(cols)] THEN Append(cols, m.col)
                    ELSE back
           ok == m.col = c.col \/ cols2[Len(cols2)] = m.col
           given(x) == [x EXCEPT !.indent = Len(cols2)]
       IN IF n = Len(l.text) THEN Indent(c, st, i + 1, cols, Append(blank, [l EXCEPT !.text = <<>>, !.leading = <<>>, !.trailing = To(l.line, Len(l.line) - Len(l.end)), !.col = c.col]), out)
          ELSE IF m.col # c.col /\ (cols2 = <<>> \/ ~ok) THEN [ls |-> out, exc |-> "IndentationError"]
          ELSE Indent(c, st, i + 1, cols2, <<>>, out \o [k \in 1..Len(blank) |-> given(blank[k])] \o <<given(m)>>)
\* ---- lines_strip_line_comments.  q: the quote left open by the previous line.
RECURSIVE FirstIn(_, _, _)
FirstIn(s, i, S) == IF i > Len(s) THEN 0 ELSE IF LongestAt(s, i, S) > 0 THEN i ELSE FirstIn(s, i + 1, S)
Segs(c, op, text, q) == IF op.quotes = <<>> /\ op.multi = <<>> THEN [segs |-> <<<<<<>>, text, <<>>>>>>, exc |-> ""]
                        ELSE Sqs([s |-> text, b |-> c.b, quotes |-> op.quotes, multi |-> op.multi, esc |-> op.esc, state |-> q])
\* the position of the first marker in an unquoted segment; 0 if none.  at: length of the preceding segments
RECURSIVE CommentAt(_, _, _, _, _)
CommentAt(op, segs, k, at, q) ==
  IF k > Len(segs) THEN 0
  ELSE LET g == segs[k]
           p == IF g[1] = <<>> /\ ~(k = 1 /\ q # <<>>) THEN FirstIn(g[2], 1, Range(op.markers)) ELSE 0
       IN IF p > 0 THEN at + p ELSE CommentAt(op, segs, k + 1, at + Len(Concat(g)), q)
RECURSIVE Comments(_, _, _, _, _, _)
Comments(c, op, st, i, q, out) ==
  IF i > Len(st.ls) THEN [ls |-> out, exc |-> IF st.exc # "" THEN st.exc ELSE IF q # <<>> THEN "SyntaxError" ELSE ""]
  ELSE LET l == st.ls[i]
           r == Segs(c, op, l.text, q)
           p == CommentAt(op, r.segs, 1, 0, q)
           last == r.segs[Len(r.segs)]
           open == IF r.segs = <<>> THEN q
                   ELSE IF Len(r.segs) = 1 /\ q # <<>> THEN (IF last[3] = <<>> THEN q ELSE <<>>)
                   ELSE IF last[1] # <<>> /\ last[3] = <<>> THEN last[1] ELSE <<>>
       IN IF p > 0 THEN Comments(c, op, st, i + 1, <<>>, Append(out, Clip(c, l, 0, Len(l.text) - p + 1)))
          ELSE IF r.exc # "" \/ (open # <<>> /\ open \notin Range(op.multi)) THEN [ls |-> out, exc |-> "SyntaxError"]
          ELSE Comments(c, op, st, i + 1, open, Append(out, l))
\* ---- the deprecated lines_strip_comments.  op.quotes: the quote characters; op.triple, op.rstrip: 0 or 1
OldSegs(op, text) == IF op.quotes = <<>> THEN <<<<0, text>>>> ELSE OQ([s |-> text, quotes |-> op.quotes, triple |-> op.triple, esc |-> op.esc], 1, 0, FALSE, <<>>, <<>>)
\* how much of the line is kept
RECURSIVE OldKept(_, _, _, _, _)
OldKept(c, op, segs, k, at) ==
  IF k > Len(segs) THEN at
  ELSE LET p == IF segs[k][1] = 0 THEN FirstIn(segs[k][2], 1, Range(op.markers)) ELSE 0
           lead == To(segs[k][2], p - 1)
       IN IF p = 0 THEN OldKept(c, op, segs, k + 1, at + Len(segs[k][2]))
          ELSE at + Len(lead) - (IF op.rstrip = 1 THEN TrailIn(lead, Ws(c.b)) ELSE 0)
OldComments(c, op, st) == LET F(l) == Clip(c, l, 0, Len(l.text) - OldKept(c, op, OldSegs(op, l.text), 1, 0)) IN Each(st, F)
\* ---- filters and sort
Contains(s, t) == \E i \in 1..(Len(s) + 1) : StartsAt(s, i, t)
Grep(c, op, st) ==
  LET kept == Only(st, LAMBDA l : (Search(op.r, l.text, 1, FALSE) # <<>>) = (op.invert = 0))
      F(l) == [l EXCEPT !.match[op.a] = IF op.invert = 1 THEN <<>> ELSE Search(op.r, l.text, 1, FALSE)]
  IN Each(kept, F)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Key(op, l) == CASE op.key = "text" -> l.text
                [] op.key = "len" -> <<Len(l.text)>>
                [] op.key = "lastfirst" -> Rev(l.text)
                [] op.key = "-num" -> <<-l.num>>
Before(op, a, b) == IF op.reverse = 1 THEN LexLess(Key(op, b), Key(op, a)) ELSE LexLess(Key(op, a), Key(op, b))
RECURSIVE Insert(_, _, _), SortLines(_, _)
Insert(op, q, l) == IF q # <<>> /\ Before(op, l, q[Len(q)]) THEN Append(Insert(op, To(q, Len(q) - 1), l), q[Len(q)]) ELSE Append(q, l)
SortLines(op, q) == IF q = <<>> THEN <<>> ELSE Insert(op, SortLines(op, To(q, Len(q) - 1)), q[Len(q)])
Sort(op, st) == IF st.exc # "" THEN [ls |-> <<>>, exc |-> st.exc] ELSE [ls |-> SortLines(op, st.ls), exc |-> ""]
Apply(c, op, st) ==
  CASE op.op \in {"strip", "rstrip"} -> Strip(c, op, st)
    [] op.op = "clip"     -> LET F(l) == ClipN(c, op, l) IN Each(st, F)
    [] op.op = "detab"    -> Detab(c, st)
    [] op.op = "indent"   -> Indent(c, st, 1, <<>>, <<>>, <<>>)
    [] op.op = "comments" -> Comments(c, op, st, 1, <<>>, <<>>)
    [] op.op = "oldcomments" -> OldComments(c, op, st)
    [] op.op = "grep"     -> Grep(c, op, st)
    [] op.op = "containing" -> Only(st, LAMBDA l : Contains(l.text, op.t) = (op.invert = 0))
    [] op.op = "noempty"  -> Only(st, LAMBDA l : l.text # <<>>)
    [] op.op = "nocomment" -> Only(st, LAMBDA l : LongestAt(l.text, LeadIn(l.text, Ws(c.b)) + 1, Range(op.markers)) = 0)
    [] op.op = "sort"     -> Sort(op, st)
RECURSIVE Chain(_, _, _)
Chain(c, k, st) == IF k > Len(c.chain) THEN st ELSE Chain(c, k + 1, Apply(c, c.chain[k], st))
Wanted(c) == Chain(c, 1, Source(c))
\* ---- verdicts
Field(c, name, got, want, F(_)) == Clause(name, \A i \in 1..Len(want) : F(got[i]) = F(want[i]))
Conserved(c) == \A i \in 1..Len(c.o.v.ls) : LET l == c.o.v.ls[i] IN l.leading \o l.text \o l.trailing \o l.end = l.line
LinesVerdict(c) ==
  LET want == Wanted(c)
      got == c.o.v
  IN
  IF c.o.ok = 0 THEN {"the modifiers accept these arguments"}
  ELSE IF c.o.t # "lines" \o TypeName(c.b) THEN {"yields (info, line) with plain str or bytes"}
  ELSE IF c.prop = "C20" /\ want.exc # "" THEN {}
  ELSE Clause("exception", got.exc = want.exc) \cup
  (IF Len(got.ls) # Len(want.ls) THEN {"the right number of lines"} ELSE
   Field(c, "lines", got.ls, want.ls, LAMBDA l : l.text)
   \cup Field(c, "line numbers", got.ls, want.ls, LAMBDA l : l.num)
   \cup Field(c, "original lines", got.ls, want.ls, LAMBDA l : <<l.line, l.end>>)
   \cup Field(c, "column numbers", got.ls, want.ls, LAMBDA l : l.col)
   \cup Field(c, "leading and trailing", got.ls, want.ls, LAMBDA l : <<l.leading, l.trailing>>)
   \cup (IF c.prop = "C20" THEN {} ELSE Field(c, "indent", got.ls, want.ls, LAMBDA l : l.indent))
   \cup Field(c, "match", got.ls, want.ls, LAMBDA l : l.match)
   \cup (IF \E k \in 1..Len(c.chain) : c.chain[k].op = "detab" THEN {}
         ELSE Clause("leading + line + trailing + end is the original line", Conserved(c))))
(* ---- the objects themselves: c.a has what the constructor is given, as    *)
(* [t, v] (t = "-" if it isn't); c.o.v has the attributes of the object.     *)
LGiven(a, k, dt, dv) == IF a[k].t = "-" THEN [t |-> dt, v |-> dv] ELSE a[k]
LTexts == {"leading", "trailing", "end"}
LTextDef(a, k) == IF a[k].t = "none" THEN [t |-> a.line.t, v |-> <<>>] ELSE LGiven(a, k, a.line.t, <<>>)
LInfoBad(a) == \/ a.line.t \notin {"str", "bytes"}
               \/ \E k \in {"num", "col"} : a[k].t # "int"
               \/ a.indent.t \notin {"-", "int"}
               \/ \E k \in LTexts : a[k].t \notin {"-", "none", a.line.t}
               \/ a.match.t \notin {"-", "none", "pattern", "match"}
SameVal(x, y) == x.t = y.t /\ x.v = y.v
\* the constructor of LineInfo; c.a2: the same for another one, made only if both are accepted
LInfoSame(a, b) == /\ \A k \in {"line", "num", "col"} : SameVal(a[k], b[k])
                   /\ \A k \in LTexts : SameVal(LTextDef(a, k), LTextDef(b, k))
                   /\ SameVal(LGiven(a, "indent", "int", 0), LGiven(b, "indent", "int", 0))
                   /\ SameVal(LGiven(a, "match", "none", 0), LGiven(b, "match", "none", 0))
                   /\ SameVal(a.mine, b.mine) /\ SameVal(a.lines, b.lines)
LInfoVerdict(c) ==
  IF LInfoBad(c.a) THEN Clause("a value of the wrong type is a TypeError", c.o.exc = "TypeError")
  ELSE IF c.a.match.t \in {"pattern", "match"} /\ c.o.ok = 0 THEN {}      \* (the documentation and the code disagree)
  ELSE IF c.o.ok = 0 THEN {"these values are accepted"}
  ELSE IF c.o.t # "info" THEN {"a LineInfo"}
  ELSE LET got == c.o.v.at IN
    Clause("it holds what it was given", /\ \A k \in {"line", "num", "col"} : SameVal(got[k], c.a[k])
                                         /\ SameVal(got.lines, c.a.lines)
                                         /\ SameVal(got.mine, c.a.mine)
                                         /\ SameVal(got.match, LGiven(c.a, "match", "none", 0)))
    \cup Clause("what it wasn't given is empty", /\ \A k \in LTexts : SameVal(got[k], LTextDef(c.a, k))
                                                /\ SameVal(got.indent, LGiven(c.a, "indent", "int", 0)))
    \cup (IF c.o.v.eq = 2 THEN {} ELSE
          Clause("two are equal exactly when all they hold is", c.o.v.eq = (IF LInfoSame(c.a, c.a2) THEN 1 ELSE 0)))
\* the constructor of lines
LLinesExc(a) == (IF \E k \in {"num", "col", "tw"} : a[k].t \notin {"-", "int"} THEN {"TypeError"} ELSE {})
           \cup (IF a.s.t # "text" /\ a.seps.t # "-" THEN {"ValueError"} ELSE {})
           \cup (IF a.s.t = "other" THEN {"TypeError"} ELSE {})
LLinesVerdict(c) ==
  LET x == LLinesExc(c.a) IN
  IF x # {} THEN Clause("a value of the wrong type, or separators for what is no text, are rejected", c.o.exc \in x)
  ELSE IF c.o.ok = 0 THEN {"these values are accepted"}
  ELSE IF c.o.t # "lines" THEN {"a lines object"}
  ELSE LET got == c.o.v.at IN
    Clause("it holds what it was given", /\ SameVal(got.num, LGiven(c.a, "num", "int", 1))
                                         /\ SameVal(got.col, LGiven(c.a, "col", "int", 1))
                                         /\ SameVal(got.tw, LGiven(c.a, "tw", "int", 8))
                                         /\ SameVal(got.mine, c.a.mine))
InfoVerdict(c) == IF c.fn = "info" THEN LInfoVerdict(c) ELSE LLinesVerdict(c)
=============================================================================
