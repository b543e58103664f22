------------------------------- MODULE Format -------------------------------
(* wrap_words (C24), split_text_with_code (C25), merge_columns (C26).       *)
EXTENDS TextBase
Spaces(n) == [k \in 1..n |-> 32]
NL == <<10>>
\* what counts as white space in str and in bytes
White(b) == IF b = 1 THEN AsciiWs ELSE StrWs
Blank(w, b) == w # <<>> /\ \A i \in 1..Len(w) : w[i] \in White(b)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE SplitOn(_, _, _)
SplitOn(s, i, ch) == \* pieces of From(s, i) between occurrences of ch
  IF \E k \in i..Len(s) : s[k] = ch
  THEN LET k == CHOOSE x \in i..Len(s) : s[x] = ch /\ \A y \in i..(x - 1) : s[y] # ch
       IN <<SubSeq(s, i, k - 1)>> \o SplitOn(s, k + 1, ch)
  ELSE <<From(s, i)>>
RECURSIVE RStrip(_, _)
RStrip(s, b) == IF s # <<>> /\ s[Len(s)] \in White(b) THEN RStrip(To(s, Len(s) - 1), b) ELSE s
\* ---- wrap_words: words are put on a line as long as they fit (a word always fits on an empty
\* line), after one space, or two after a word that ends a sentence.  White space words are
\* copied as they are, and start a new line.
Gap(c, last) == IF c.two = 1 /\ last # <<>> /\ last[Len(last)] \in {46, 63, 33} THEN 2 ELSE 1
RECURSIVE Wrap(_, _, _, _)
Wrap(c, i, col, last) ==
  IF i > Len(c.words) THEN <<>>
  ELSE LET w == c.words[i]
           g == Gap(c, last)
       IN IF Blank(w, c.b) THEN w \o Wrap(c, i + 1, 0, w)
          ELSE IF col = 0 THEN w \o Wrap(c, i + 1, Len(w), w)
          ELSE IF col + g + Len(w) > c.margin THEN NL \o w \o Wrap(c, i + 1, Len(w), w)
          ELSE Spaces(g) \o w \o Wrap(c, i + 1, col + g + Len(w), w)
\* ---- split_text_with_code: by lines.  A line is blank, code, or text.
RECURSIVE Cols(_, _, _)
Cols(s, i, tw) == IF s = <<>> THEN i ELSE Cols(Tail(s), IF s[1] = 9 THEN i + tw - (i % tw) ELSE i + 1, tw)
RECURSIVE Detabbed(_, _, _)
Detabbed(s, i, tw) == IF s = <<>> THEN <<>>
                      ELSE IF s[1] = 9 THEN LET j == Cols(<<9>>, i, tw) IN Spaces(j - i) \o Detabbed(Tail(s), j, tw)
                      ELSE <<s[1]>> \o Detabbed(Tail(s), i + 1, tw)
RECURSIVE LeadWs(_)
LeadWs(s) == IF s # <<>> /\ s[1] \in {9, 32} THEN <<s[1]>> \o LeadWs(Tail(s)) ELSE <<>>
Kind(c, l) == IF RStrip(l, c.b) = <<>> THEN "blank" ELSE IF c.code = 1 /\ Cols(LeadWs(l), 0, c.tw) >= c.ci THEN "code" ELSE "text"
RECURSIVE WordsOf(_, _, _)
WordsOf(s, w, b) == IF s = <<>> THEN (IF w = <<>> THEN <<>> ELSE <<w>>)
                 ELSE IF s[1] \in White(b) THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o WordsOf(Tail(s), <<>>, b)
                 ELSE WordsOf(Tail(s), Append(w, s[1]), b)
RECURSIVE Code(_, _, _, _, _)
\* before: the kind of the last non-blank line; n: line breaks since then
Code(c, ls, i, before, n) ==
  IF i > Len(ls) THEN <<>>
  ELSE LET k == Kind(c, ls[i])
           break == CASE before = "" -> <<>>
                      [] before = "code" /\ k = "code" -> [x \in 1..n |-> NL]
                      [] before = "text" /\ k = "text" /\ n = 1 -> <<>>
                      [] OTHER -> <<<<10, 10>>>>
           what == IF k = "code" THEN <<IF c.conv = 1 THEN Detabbed(RStrip(ls[i], c.b), 0, c.tw) ELSE RStrip(ls[i], c.b)>> ELSE WordsOf(ls[i], <<>>, c.b)
       IN IF k = "blank" THEN Code(c, ls, i + 1, before, n + 1)
          ELSE break \o what \o Code(c, ls, i + 1, k, 1)
WithCode(c) == LET r == Code(c, SplitOn(c.s, 1, 10), 1, "", 0) IN IF r = <<>> THEN <<<<>>>> ELSE r
\* ---- merge_columns.  A column is [text, max].
ColLines(col, b) == LET ls == SplitOn(RStrip(col.text, b), 1, 10) IN [i \in 1..Len(ls) |-> RStrip(ls[i], b)]
TooWide(col, ls) == {i \in 1..Len(ls) : Len(ls[i]) > col.max}
\* the lines of a column that suspend the following columns
Overflowing(c, col, ls) ==
  LET W == TooWide(col, ls) IN
  IF W = {} THEN {}
  ELSE IF c.strategy = "delay" THEN {i \in 1..Len(ls) : i <= MaxOf(W) + c.after}
  ELSE {i \in 1..Len(ls) : \E w \in W : i >= w - c.before /\ i <= w + c.after}
Pad(l, n) == l \o Spaces(Max2(0, n - Len(l)))
\* pos: the next line of each column
RECURSIVE Row(_, _, _, _, _), Rows(_, _, _, _)
\* -> <<the text of the row from column k on, the new positions, whether any column had a line>>
Row(c, lines, over, k, pos) ==
  IF k > Len(lines) THEN <<<<>>, pos, FALSE>>
  ELSE LET live == pos[k] <= Len(lines[k])
           stop == live /\ pos[k] \in over[k]
           text == IF ~live THEN Spaces(c.cols[k].max) ELSE IF stop THEN lines[k][pos[k]] ELSE Pad(lines[k][pos[k]], c.cols[k].max)
           pos2 == IF live THEN [pos EXCEPT ![k] = @ + 1] ELSE pos
           rest == IF stop THEN <<<<>>, pos2, FALSE>> ELSE Row(c, lines, over, k + 1, pos2)
       IN <<text \o (IF stop \/ k = Len(lines) THEN <<>> ELSE c.sep) \o rest[1], rest[2], live \/ rest[3]>>
Rows(c, lines, over, pos) ==
  LET r == Row(c, lines, over, 1, pos)
  IN IF ~r[3] THEN <<>> ELSE <<RStrip(r[1], c.b)>> \o Rows(c, lines, over, r[2])
Merge(c) ==
  LET lines == [k \in 1..Len(c.cols) |-> ColLines(c.cols[k], c.b)]
      over == [k \in 1..Len(c.cols) |-> Overflowing(c, c.cols[k], lines[k])]
  IN RStrip(Join(Rows(c, lines, over, [k \in 1..Len(c.cols) |-> 1]), NL), c.b)
RaisesOverflow(c) == c.strategy = "raise" /\ \E k \in 1..Len(c.cols) : TooWide(c.cols[k], ColLines(c.cols[k], c.b)) # {}
\* other white space at the start of a line or in a code line is not supported (RuntimeError)
OddInside(l, b) == \E i \in 1..Len(RStrip(l, b)) : l[i] \in White(b) \ {9, 32}
OddLead(l, b) == \E i \in 1..Len(l) : l[i] \in White(b) \ {9, 32} /\ \A j \in 1..i : l[j] \in White(b)
Unsupported(c) == c.code = 1 /\ \E i \in 1..Len(SplitOn(c.s, 1, 10)) :
                    LET l == SplitOn(c.s, 1, 10)[i] IN Kind(c, l) # "blank" /\ (OddLead(l, c.b) \/ (Kind(c, l) = "code" /\ OddInside(l, c.b)))
FormatVerdict(c) ==
  LET T == TypeName(c.b) IN
  CASE c.fn = "wrap" -> IF c.words = <<>> THEN Clause("no words: ValueError", c.o.exc = "ValueError")
                        ELSE Clause("the words wrapped at the margin", Same(c.o, Ok(T, Wrap(c, 1, 0, <<>>))))
    [] c.fn = "code" -> IF Unsupported(c) THEN {} ELSE Clause("words, code lines and breaks", Same(c.o, ListOf(T, WithCode(c))))
    [] c.fn = "merge" -> IF RaisesOverflow(c) THEN Clause("OverflowError", c.o.exc = "OverflowError")
                         ELSE Clause("the merged columns", Same(c.o, Ok(T, Merge(c))))
=============================================================================
