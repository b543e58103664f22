------------------------------- MODULE Quotes -------------------------------
(* split_quoted_strings (property C18), and the deprecated parsers of       *)
(* quotes and delimiters (C33): one automaton each, run over the string.    *)
EXTENDS TextBase
IsNl(b, ch) == IF b = 1 THEN ch \in BytesNl ELSE ch \in StrNl
HasNl(b, s) == \E i \in 1..Len(s) : IsNl(b, s[i])
\* ---- split_quoted_strings.  q: the open quote mark (<<>> outside quotes).
\* Outside quotes every quote mark opens; inside, only the mark that opened closes.
\* A mark preceded by the escape, and a doubled escape, are text.
Marks(c, q) == IF q = <<>> THEN Range(c.quotes) \cup Range(c.multi) ELSE {q}
Hidden(c, q) == IF c.esc = <<>> THEN {} ELSE {c.esc \o m : m \in Marks(c, q)} \cup {c.esc \o c.esc}
\* the segments: <<opening mark, text, closing mark>>; first: the segment began before s
RECURSIVE SQ(_, _, _, _, _, _)
SQ(c, i, q, first, text, out) ==
  LET seg(close) == <<IF first THEN <<>> ELSE q, text, close>>
      bad == q # <<>> /\ q \notin Range(c.multi) /\ HasNl(c.b, text)
  IN
  IF i > Len(c.s)
  THEN IF text = <<>> /\ (q = <<>> \/ first) THEN [segs |-> out, exc |-> ""]
       ELSE IF bad THEN [segs |-> out, exc |-> "SyntaxError"]
       ELSE [segs |-> Append(out, seg(<<>>)), exc |-> ""]
  ELSE
  LET n == LongestAt(c.s, i, Marks(c, q) \cup Hidden(c, q))
      t == SubSeq(c.s, i, i + n - 1)
  IN IF n = 0 THEN SQ(c, i + 1, q, first, Append(text, c.s[i]), out)
     ELSE IF t \notin Marks(c, q) THEN SQ(c, i + n, q, first, text \o t, out)
     ELSE IF q = <<>> THEN SQ(c, i + n, t, FALSE, <<>>, IF text = <<>> THEN out ELSE Append(out, <<<<>>, text, <<>>>>))
     ELSE IF bad THEN [segs |-> out, exc |-> "SyntaxError"]
     ELSE SQ(c, i + n, <<>>, FALSE, <<>>, Append(out, seg(t)))
Sqs(c) == SQ(c, 1, c.state, c.state # <<>>, <<>>, <<>>)
Distinct(q) == Cardinality(Range(q)) = Len(q)
SqsArgs(c) == /\ <<>> \notin Range(c.quotes) \cup Range(c.multi)
              /\ Distinct(c.quotes) /\ Distinct(c.multi) /\ Range(c.quotes) \cap Range(c.multi) = {}
              /\ Len(c.quotes) + Len(c.multi) > 0
              /\ c.state = <<>> \/ c.state \in Range(c.quotes) \cup Range(c.multi)
\* ---- the deprecated split_quoted_strings: single-character quotes, triple quotes on request.
\* A segment is <<1 when quoted, text>>.
Thrice(s, i) == i + 2 <= Len(s) /\ s[i + 1] = s[i] /\ s[i + 2] = s[i]
RECURSIVE OQ(_, _, _, _, _, _)
OQ(c, i, q, triple, text, out) ==
  LET s == c.s
      flush == IF text = <<>> THEN out ELSE Append(out, <<0, text>>)
  IN
  IF i > Len(s) THEN (IF text = <<>> THEN out ELSE Append(out, <<IF q = 0 THEN 0 ELSE 1, text>>))
  ELSE IF q = 0
  THEN IF s[i] \notin Range(c.quotes) THEN OQ(c, i + 1, 0, FALSE, Append(text, s[i]), out)
       ELSE IF c.triple = 1 /\ Thrice(s, i) THEN OQ(c, i + 3, s[i], TRUE, <<s[i], s[i], s[i]>>, flush)
       ELSE OQ(c, i + 1, s[i], FALSE, <<s[i]>>, flush)
  ELSE IF s[i] = c.esc THEN OQ(c, i + 2, q, triple, text \o SubSeq(s, i, Min2(i + 1, Len(s))), out)
  ELSE IF triple THEN (IF s[i] = q /\ Thrice(s, i) THEN OQ(c, i + 3, 0, FALSE, <<>>, Append(out, <<1, text \o <<q, q, q>>>>))
                       ELSE OQ(c, i + 1, q, TRUE, Append(text, s[i]), out))
  ELSE IF s[i] = q THEN OQ(c, i + 1, 0, FALSE, <<>>, Append(out, <<1, Append(text, q)>>))
  ELSE OQ(c, i + 1, q, FALSE, Append(text, s[i]), out)
\* ---- the deprecated parse_delimiters.  c.d: <<open, close, backslash, nested>>; stack: the open
\* delimiters (indices into c.d), innermost last.  A segment is <<text, open, close>>.
RECURSIVE PD(_, _, _, _, _)
PD(c, i, stack, text, out) ==
  LET s == c.s
      top == IF stack = <<>> THEN <<0, 0, 0, 1>> ELSE c.d[stack[Len(stack)]]
      closers == {c.d[k][2] : k \in {j \in 1..Len(c.d) : c.d[j][2] # c.d[j][1]}}
      openers == {c.d[k][1] : k \in 1..Len(c.d)}
      ch == s[i]
  IN IF i > Len(s)
     THEN IF stack # <<>> THEN [segs |-> out, exc |-> "ValueError"]
          ELSE [segs |-> IF text = <<>> THEN out ELSE Append(out, <<text, <<>>, <<>>>>), exc |-> ""]
     ELSE IF stack # <<>> /\ ch = top[2] THEN PD(c, i + 1, To(stack, Len(stack) - 1), <<>>, Append(out, <<text, <<>>, <<ch>>>>))
     ELSE IF top[4] = 1 /\ ch \in closers THEN [segs |-> out, exc |-> "ValueError"]
     ELSE IF top[4] = 1 /\ ch \in openers
          THEN PD(c, i + 1, Append(stack, CHOOSE k \in 1..Len(c.d) : c.d[k][1] = ch), <<>>, Append(out, <<text, <<ch>>, <<>>>>))
     ELSE IF top[3] = 1 /\ ch = 92 THEN PD(c, i + 2, stack, text \o SubSeq(s, i, Min2(i + 1, Len(s))), out)
     ELSE PD(c, i + 1, stack, Append(text, ch), out)
PdArgs(c) == /\ c.d # <<>>
             /\ \A k \in 1..Len(c.d) : c.d[k][1] # 92 /\ c.d[k][2] # 92
             /\ Cardinality({c.d[k][1] : k \in 1..Len(c.d)}) = Len(c.d)
\* ---- the verdicts.  c.o.v = [segs, exc]: what was yielded, and the exception that ended it
Flat(segs) == Concat([i \in 1..Len(segs) |-> Concat(segs[i])])
\* (continuing an open quote with an empty string may or may not yield a segment of three empty strings)
Got(c) == IF c.s = <<>> THEN SelectSeq(c.o.v.segs, LAMBDA g : g # <<<<>>, <<>>, <<>>>>) ELSE c.o.v.segs
Compare(c, want, plain) ==
  Clause("yields plain tuples of str or bytes", c.o.t = "gen" \o TypeName(c.b)) \cup
  (IF c.o.t # "gen" \o TypeName(c.b) THEN {} ELSE
   Clause("the segments", Got(c) = want.segs)
   \cup Clause("the exception", c.o.v.exc = want.exc)
   \cup Clause("lossless", c.o.v.exc # "" \/ plain = c.s))
Call(c, valid, want, plain(_)) ==
  IF ~valid THEN Clause("invalid arguments are rejected with ValueError", c.o.exc = "ValueError")
  ELSE IF c.o.ok = 0 THEN {"valid arguments are accepted"} ELSE Compare(c, want, plain(c.o.v.segs))
QuotesVerdict(c) ==
  CASE c.fn = "sqs" -> Call(c, SqsArgs(c), Sqs(c), Flat)
    [] c.fn = "old" -> Call(c, TRUE, [segs |-> OQ(c, 1, 0, FALSE, <<>>, <<>>), exc |-> ""], LAMBDA g : Concat([i \in 1..Len(g) |-> g[i][2]]))
    [] c.fn = "pd"  -> Call(c, PdArgs(c), PD(c, 1, <<>>, <<>>, <<>>), Flat)
=============================================================================
