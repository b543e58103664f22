------------------------------- MODULE Split -------------------------------
(* multisplit, multistrip, multipartition (properties C14, C15, C16).      *)
EXTENDS TextBase
\* the separators found scanning s from position i: leftmost, then longest; as <<start, length>>
RECURSIVE Occ(_, _, _)
Occ(s, i, S) == IF i > Len(s) THEN <<>>
                ELSE LET n == LongestAt(s, i, S) IN
                     IF n = 0 THEN Occ(s, i + 1, S) ELSE <<<<i, n>>>> \o Occ(s, i + n, S)
RECURSIVE Merge(_)
Merge(o) == IF Len(o) < 2 THEN o
            ELSE IF o[1][1] + o[1][2] = o[2][1]
                 THEN Merge(<<<<o[1][1], o[1][2] + o[2][2]>>>> \o From(o, 3))
                 ELSE <<o[1]>> \o Merge(Tail(o))
\* alternating text, separator, text, ..., text: at most max separators (max < 0: all)
RECURSIVE Alt(_, _, _)
Alt(s, i, o) == IF o = <<>> THEN <<From(s, i)>>
                ELSE <<SubSeq(s, i, o[1][1] - 1), SubSeq(s, o[1][1], o[1][1] + o[1][2] - 1)>>
                     \o Alt(s, o[1][1] + o[1][2], Tail(o))
Forward(s, S, separate, max) ==
  LET o == IF separate THEN Occ(s, 1, S) ELSE Merge(Occ(s, 1, S))
  IN Alt(s, 1, IF max >= 0 /\ max < Len(o) THEN To(o, max) ELSE o)
Alternating(s, S, separate, reverse, max) ==
  IF ~reverse THEN Forward(s, S, separate, max)
  ELSE LET r == Forward(Rev(s), {Rev(p) : p \in S}, separate, max)
       IN [i \in 1..Len(r) |-> Rev(r[Len(r) + 1 - i])]
Splits(a) == (Len(a) - 1) \div 2
\* what is yielded in each keep mode
Keep(a, keep, type) ==
  LET n == Splits(a) + 1
      sep(i) == IF i < n THEN a[2 * i] ELSE <<>>
  IN CASE keep = "no"    -> ListOf(type, [i \in 1..n |-> a[2 * i - 1]])
       [] keep = "yes"   -> ListOf(type, [i \in 1..n |-> a[2 * i - 1] \o sep(i)])
       [] keep = "alt"   -> ListOf(type, a)
       [] keep = "pairs" -> ListOf("tuple<" \o type \o ">", [i \in 1..n |-> <<a[2 * i - 1], sep(i)>>])
\* ---- stripping.  The left end: repeatedly the longest separator.  The right end: any
\* suffix made of separators may go if what remains does not end with a separator.
RECURSIVE LStripN(_, _, _)
LStripN(s, i, S) == LET n == LongestAt(s, i, S) IN IF i > Len(s) \/ n = 0 THEN i - 1 ELSE LStripN(s, i + n, S)
\* the positions i such that From(s, i) is a concatenation of separators
RECURSIVE Decomp(_, _, _, _)
Decomp(s, i, S, ok) ==
  IF i = 0 THEN ok
  ELSE Decomp(s, i - 1, S, IF \E p \in S : StartsAt(s, i, p) /\ (i + Len(p)) \in ok THEN ok \cup {i} ELSE ok)
SuffixStarts(s, S) == Decomp(s, Len(s), S, {Len(s) + 1})
RStrips(s, S) == {To(s, i - 1) : i \in {j \in SuffixStarts(s, S) : ~\E p \in S : EndsWith(To(s, j - 1), p)}}
Strips(s, S, left, right) ==
  LET l == IF left THEN From(s, LStripN(s, 1, S) + 1) ELSE s
  IN IF right THEN RStrips(l, S) ELSE {l}
\* the documented procedure: strip the longest suffix made of separators
RStripMax(s, S) == To(s, (CHOOSE i \in SuffixStarts(s, S) : \A j \in SuffixStarts(s, S) : i <= j) - 1)
Strip1(s, S, left, right) ==
  LET l == IF left THEN From(s, LStripN(s, 1, S) + 1) ELSE s
  IN IF right THEN RStripMax(l, S) ELSE l
\* ---- the calls
Seps(c) == IF c.table # "" THEN Table(c.table) ELSE Range(c.seps)
Max(c) == IF c.max < 0 THEN -1 ELSE c.max
SplitOf(c, s, max) == Keep(Alternating(s, Seps(c), c.separate = 1, c.reverse = 1, max), c.keep, TypeName(c.b))
\* the far end of an alternating split without its separators
RECURSIVE DropFar(_, _)
DropFar(a, reverse) ==
  IF Len(a) = 1 THEN a
  ELSE IF reverse THEN (IF a[1] = <<>> THEN DropFar(From(a, 3), reverse) ELSE a)
  ELSE (IF a[Len(a)] = <<>> THEN DropFar(To(a, Len(a) - 2), reverse) ELSE a)
\* the possible results of multisplit
SplitResults(c) ==
  LET S == Seps(c) IN
  CASE c.strip = "no"    -> {SplitOf(c, c.s, Max(c))}
    [] c.strip \in {"yes", "left", "right"} ->
         {SplitOf(c, x, IF x = <<>> THEN 0 ELSE Max(c)) : x \in Strips(c.s, S, c.strip # "right", c.strip # "left")}
    [] c.strip = "prog" ->
         UNION {LET n == Splits(Alternating(x, S, c.separate = 1, c.reverse = 1, -1))
                IN IF Max(c) # -1 /\ Max(c) < n THEN {SplitOf(c, x, Max(c))}
                   \* (with overlapping separators, stripping first and splitting first may differ)
                   ELSE {SplitOf(c, y, IF y = <<>> THEN 0 ELSE -1) : y \in Strips(c.s, S, TRUE, TRUE)}
                        \cup {Keep(DropFar(Alternating(x, S, c.separate = 1, c.reverse = 1, -1), c.reverse = 1), c.keep, TypeName(c.b))}
                : x \in Strips(c.s, S, c.reverse = 0, c.reverse = 1)}
Lossless(c) == LET t == TypeName(c.b) IN
  CASE c.keep = "no" -> TRUE
    [] c.keep = "pairs" -> c.o.t = "list<tuple<" \o t \o ">>" /\ Concat(Concat(c.o.v)) = c.s
    [] OTHER -> c.o.t = "list<" \o t \o ">" /\ Concat(c.o.v) = c.s
MultisplitVerdict(c) ==
  IF c.strip = "no"
  THEN Clause("splits exactly at the greedy separators", Same(c.o, SplitOf(c, c.s, Max(c))))
       \cup (IF c.o.ok = 0 THEN {} ELSE Clause("lossless", Lossless(c)))
  ELSE Clause("splits the stripped string at the greedy separators", \E r \in SplitResults(c) : Same(c.o, r))
MultistripVerdict(c) ==
  LET S == Seps(c)
      t == TypeName(c.b)
      l == c.left = 1
      r == c.right = 1
  IN IF c.o.ok = 0 \/ c.o.t # t THEN {"returns a plain " \o t}
     ELSE Clause("removes separators from the requested ends only", c.o.v \in {x : x \in Strips(c.s, S, l, r)})
          \cup (IF c.o.v = <<>> THEN {} ELSE
                Clause("does not begin with a separator", ~l \/ ~\E p \in S : StartsWith(c.o.v, p))
                \cup Clause("does not end with a separator", ~r \/ ~\E p \in S : EndsWith(c.o.v, p)))
MultipartitionVerdict(c) ==
  LET t == TypeName(c.b)
      rev == (c.reverse = 1) # (c.fn = "multirpartition")
      a == Alternating(c.s, Seps(c), c.separate = 1, rev, c.count)
      pad == [i \in 1..(2 * c.count + 1 - Len(a)) |-> <<>>]
  IN Clause("partitions at the first separators", Same(c.o, TupleOf(t, IF rev THEN pad \o a ELSE a \o pad)))
     \cup (IF c.o.ok = 1 /\ c.o.t = "tuple<" \o t \o ">" THEN Clause("lossless", Concat(c.o.v) = c.s)
              \cup Clause("2*count+1 pieces", Len(c.o.v) = 2 * c.count + 1) ELSE {})
SplitVerdict(c) == CASE c.fn = "multisplit" -> MultisplitVerdict(c)
                     [] c.fn = "multistrip" -> MultistripVerdict(c)
                     [] c.fn \in {"multipartition", "multirpartition"} -> MultipartitionVerdict(c)
=============================================================================
