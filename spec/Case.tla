-------------------------------- MODULE Case --------------------------------
(* gently_title (C27), split_title_case, normalize_whitespace and           *)
(* combine_splits (C28).                                                    *)
EXTENDS Split
\* the letters used, and what they are in the Unicode character database
LowerLetters == (97..122) \cup {223, 225, 233, 239, 331, 454, 945, 1078}
UpperLetters == (65..90) \cup {193, 201, 207, 330, 452, 913, 1046}
CaseUpper(ch) ==
  CASE ch \in 97..122 -> <<ch - 32>>
    [] ch = 223 -> <<83, 83>>                       \* sharp s becomes SS
    [] ch \in {225, 233, 239} -> <<ch - 32>>
    [] ch = 331 -> <<330>>  [] ch = 454 -> <<452>> [] ch = 453 -> <<452>> [] ch = 945 -> <<913>> [] ch = 1078 -> <<1046>>
    [] OTHER -> <<ch>>
UpperOf(ch, b) == IF b = 1 /\ ch > 127 THEN <<ch>> ELSE CaseUpper(ch)
IsUpperCh(ch, b) == ch \in UpperLetters /\ (b = 0 \/ ch < 128)
IsLowerCh(ch, b) == ch \in LowerLetters /\ (b = 0 \/ ch < 128)
\* ---- gently_title, declaratively: what happens to the character at i depends on
\* the part of its word before it
DefaultApostrophes(b)  == IF b = 1 THEN {39} ELSE {39, 8216, 8217, 8218, 8219}
DefaultQuotes(b) == IF b = 1 THEN {34} ELSE {34, 8220, 8221, 8222, 8223, 171, 187, 8249, 8250}
Apostrophes(c)  == IF c.ap = <<>> THEN DefaultApostrophes(c.b) ELSE Range(c.ap)
DoubleQuotes(c) == IF c.dq = <<>> THEN DefaultQuotes(c.b) ELSE Range(c.dq)
IsGap(ch, b) == ch = 40 \/ (IF b = 1 THEN ch \in AsciiWs ELSE ch \in StrWs)
WordStart(s, i, b) ==
  LET g == {j \in 1..(i - 1) : IsGap(s[j], b)} IN IF g = {} THEN 1 ELSE MaxOf(g) + 1
Raised1(c, i) ==       \* is the i-th character put in upper case?
  LET s == c.s
      ws == WordStart(s, i, c.b)
      marks == Apostrophes(c) \cup DoubleQuotes(c)
  IN /\ ~IsGap(s[i], c.b)
     /\ \/ i = ws
        \* after the run of marks that starts the word
        \/ (\A j \in ws..(i - 1) : s[j] \in marks) /\ s[i] \notin marks
        \* O'..., D'...
        \/ (i = ws + 2 /\ s[ws] \in {68, 79, 100, 111} /\ s[ws] \notin marks /\ s[ws + 1] \in Apostrophes(c))
GentlyTitle(c) == Concat([i \in 1..Len(c.s) |-> IF Raised1(c, i) THEN UpperOf(c.s[i], c.b) ELSE <<c.s[i]>>])
\* ---- split_title_case: the cuts
TitleCut(s, i, b, allcaps) ==   \* is there a cut between i-1 and i?
  /\ IsUpperCh(s[i], b)
  /\ \/ IsLowerCh(s[i - 1], b)
     \/ (allcaps /\ IsUpperCh(s[i - 1], b) /\ i < Len(s) /\ IsLowerCh(s[i + 1], b))
RECURSIVE CutAt(_, _)
CutAt(s, cuts) ==      \* cuts: set of i: a piece starts at i (2..Len(s))
  IF cuts = {} THEN <<s>>
  ELSE LET i == MaxOf(cuts) IN CutAt(To(s, i - 1), cuts \ {i}) \o <<From(s, i)>>
TitleSplit(c) == IF c.s = <<>> THEN <<c.s>>
                 ELSE CutAt(c.s, {i \in 2..Len(c.s) : TitleCut(c.s, i, c.b, c.allcaps = 1)})
\* ---- normalize_whitespace
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
NormSeps(c) == IF c.table # "" THEN Table(c.table) ELSE Range(c.seps)
Normalized(c) ==
  LET a == Forward(c.s, NormSeps(c), FALSE, -1)
  IN IF c.s = <<>> THEN <<>> ELSE Joined([i \in 1..((Len(a) + 1) \div 2) |-> a[2 * i - 1]], c.rep)
\* ---- combine_splits: arrays are given by the lengths of their pieces
RECURSIVE SumTo(_, _)
SumTo(a, n) == IF n = 0 THEN 0 ELSE a[n] + SumTo(a, n - 1)
CombineCuts(c) == UNION {{SumTo(a, k) + 1 : k \in 1..Len(a)} : a \in Range(c.arrays)}
TooLong(c) == \E a \in Range(c.arrays) : SumTo(a, Len(a)) > Len(c.s)
Combined(c) == IF c.s = <<>> THEN <<>> ELSE CutAt(c.s, CombineCuts(c) \cap 2..Len(c.s))
\* ---- verdicts
TextOut(c, s) == Ok(TypeName(c.b), s)
CaseVerdict(c) ==
  CASE c.fn = "gently" ->
         Clause("exactly the word-initial characters are in upper case, the rest is unchanged", Same(c.o, TextOut(c, GentlyTitle(c))))
    [] c.fn = "title" ->
         Clause("the string is cut exactly where a title-case word starts", Same(c.o, ListOf(TypeName(c.b), TitleSplit(c))))
    [] c.fn = "norm" ->
         Clause("every run of separators, and nothing else, becomes one replacement", Same(c.o, TextOut(c, Normalized(c))))
    [] c.fn = "combine" ->
         Clause("the string is cut exactly at the union of the split points",
                IF TooLong(c) THEN c.o.ok = 0 /\ c.o.exc = "ValueError" ELSE Same(c.o, ListOf(TypeName(c.b), Combined(c))))
=============================================================================
