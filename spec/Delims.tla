------------------------------- MODULE Delims -------------------------------
(* split_delimiters (property C19): a pushdown automaton.  c.d is the map of *)
(* delimiters: a sequence of [open, close, esc, quoting, multi] (quoting iff *)
(* esc is not empty).  The stack holds indices into c.d, innermost last.     *)
EXTENDS TextBase
Opens(c) == {c.d[k].open : k \in 1..Len(c.d)}
Closes(c) == {c.d[k].close : k \in 1..Len(c.d)}
Escs(c) == {c.d[k].esc : k \in {j \in 1..Len(c.d) : c.d[j].quoting = 1}}
Tokens(c) == Opens(c) \cup Closes(c) \cup Escs(c)
Nls(c) == IF c.b = 1 THEN BytesNl ELSE StrNl
OpenedBy(c, t) == CHOOSE k \in 1..Len(c.d) : c.d[k].open = t
\* a delimiter map is valid when no close mark of a nesting delimiter is an open mark too
ValidMap(c) == /\ c.d # <<>>
               /\ <<92>> \notin Opens(c)
               /\ Opens(c) \cap {c.d[k].close : k \in {j \in 1..Len(c.d) : c.d[j].quoting = 0}} = {}
\* the initial state: open marks, each legal where it stands (nothing opens inside a quoting delimiter)
ValidState(c) == \A i \in 1..Len(c.state) :
  /\ c.state[i] \in Opens(c)
  /\ (i = Len(c.state) \/ c.d[OpenedBy(c, c.state[i])].quoting = 0)
\* Outside quoting delimiters the longest delimiter string (open, close or escape of any delimiter)
\* is the token: an open mark pushes, the innermost close mark pops, anything else is illegal --
\* but a longer string that begins with the innermost close mark and opens nothing is that close mark.
\* Inside a quoting delimiter only its close mark and escape are tokens, and, when it is not
\* multiline, line breaks, which are illegal.
RECURSIVE PDA(_, _, _, _, _)
PDA(c, i, stack, text, out) ==
  LET s == c.s
      inside == stack # <<>>
      top == c.d[stack[Len(stack)]]
      quoting == inside /\ top.quoting = 1
      push(t) == PDA(c, i + Len(t), Append(stack, OpenedBy(c, t)), <<>>, Append(out, <<text, t, <<>>>>))
      pop(t) == PDA(c, i + Len(t), To(stack, Len(stack) - 1), <<>>, Append(out, <<text, <<>>, t>>))
      plain == PDA(c, i + 1, stack, Append(text, s[i]), out)
      illegal == [segs |-> out, exc |-> "SyntaxError"]
  IN
  IF i > Len(s) THEN [segs |-> IF text = <<>> THEN out ELSE Append(out, <<text, <<>>, <<>>>>), exc |-> ""]
  ELSE IF quoting
  THEN LET n == LongestAt(s, i, {top.close, top.esc})
           t == SubSeq(s, i, i + n - 1)
       IN IF n > 0 /\ t = top.close THEN pop(t)
          ELSE IF n > 0 THEN (IF i + n > Len(s) THEN illegal     \* an escape at the end of the text
                              ELSE PDA(c, i + n + 1, stack, text \o t \o <<s[i + n]>>, out))
          ELSE IF top.multi = 0 /\ s[i] \in Nls(c) THEN illegal
          ELSE plain
  ELSE LET n == LongestAt(s, i, Tokens(c))
           t == SubSeq(s, i, i + n - 1)
       IN IF n = 0 THEN plain
          ELSE IF t \in Opens(c) THEN push(t)
          ELSE IF inside /\ StartsWith(t, top.close) THEN pop(top.close)
          ELSE illegal
Result(c) == PDA(c, 1, [i \in 1..Len(c.state) |-> OpenedBy(c, c.state[i])], <<>>, <<>>)
Flat(segs) == Concat([i \in 1..Len(segs) |-> Concat(segs[i])])
DelimsVerdict(c) ==
  IF ~ValidMap(c) \/ ~ValidState(c) THEN Clause("invalid arguments are rejected with ValueError", c.o.exc = "ValueError")
  ELSE IF c.o.ok = 0 THEN {"valid arguments are accepted"}
  ELSE IF c.o.t # "gen" \o TypeName(c.b) THEN {"yields plain tuples of str or bytes"}
  ELSE LET want == Result(c) IN
       Clause("the segments", c.o.v.segs = want.segs)
       \cup Clause("the exception", c.o.v.exc = want.exc)
       \cup Clause("lossless", c.o.v.exc # "" \/ Flat(c.o.v.segs) = c.s)
(* ---- Delimiter objects: c.d (and c.d2, another) as the constructor is    *)
(* given them, [close, esc, quoting, multi, b]                              *)
DObjBad(d) == d.close = <<92>> \/ (d.esc # <<>>) # (d.quoting = 1) \/ (d.quoting = 0 /\ d.multi = 0)
DObjVerdict(c) ==
  IF DObjBad(c.d) THEN Clause("an impossible delimiter is rejected with ValueError", c.o.exc = "ValueError")
  ELSE IF c.o.ok = 0 THEN {"valid arguments are accepted"}
  ELSE IF c.o.t # "delimiter" THEN {"a Delimiter"}
  ELSE Clause("it holds what it was given", c.o.v.d = c.d)
       \cup Clause("a copy is equal, has the same hash and is another object", c.o.v.copy = 1)
       \cup (IF DObjBad(c.d2) THEN {} ELSE
             Clause("two are equal exactly when all they hold is", c.o.v.eq = (IF c.d = c.d2 THEN 1 ELSE 0))
             \cup Clause("equal ones have equal hashes", c.o.v.eq # 1 \/ c.o.v.hash = 1))
=============================================================================
