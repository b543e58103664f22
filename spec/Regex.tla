------------------------------- MODULE Regex -------------------------------
(* A small executable semantics of backtracking regular expressions, and   *)
(* re_partition / re_rpartition / reversed_re_finditer on top of it        *)
(* (property C17).  Positions are 1..Len(s)+1; a match is <<from, to>>     *)
(* with the matched text SubSeq(s, from, to - 1).                          *)
EXTENDS TextBase
RECURSIVE Dedup(_, _)
Dedup(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Dedup(Tail(q), seen)
                  ELSE <<Head(q)>> \o Dedup(Tail(q), seen \cup {Head(q)})
WordChar(c) == c \in (48..57) \cup (65..90) \cup (97..122) \cup {95}
IsWord(s, i) == i >= 1 /\ i <= Len(s) /\ WordChar(s[i])
\* the possible ends of a match of r at position i of s, in order of preference
RECURSIVE M(_, _, _), MSeq(_, _, _), MAlt(_, _, _), MAll(_, _, _), Rep(_, _, _, _)
M(r, s, i) ==
  CASE r.k = "set"   -> IF i <= Len(s) /\ (s[i] \in Range(r.s)) = (r.neg = 0) THEN <<i + 1>> ELSE <<>>
    [] r.k = "seq"   -> MSeq(r.a, s, i)
    [] r.k = "alt"   -> Dedup(MAlt(r.a, s, i), {})
    [] r.k = "rep"   -> Dedup(Rep(r, s, i, 0), {})
    [] r.k = "look"  -> IF (M(r.a[1], s, i) # <<>>) = (r.neg = 0) THEN <<i>> ELSE <<>>
    [] r.k = "behind" -> IF (i > 1 /\ s[i - 1] \in Range(r.s)) = (r.neg = 0) THEN <<i>> ELSE <<>>
    [] r.k = "bol"   -> IF i = 1 \/ (r.multi = 1 /\ s[i - 1] = 10) THEN <<i>> ELSE <<>>
    [] r.k = "eol"   -> IF i = Len(s) + 1 \/ (i = Len(s) /\ s[i] = 10) \/ (r.multi = 1 /\ s[i] = 10) THEN <<i>> ELSE <<>>
    [] r.k = "end"   -> IF i = Len(s) + 1 THEN <<i>> ELSE <<>>
    [] r.k = "wordb" -> IF IsWord(s, i - 1) # IsWord(s, i) THEN <<i>> ELSE <<>>
MSeq(a, s, i) == IF a = <<>> THEN <<i>> ELSE Dedup(MAll(Tail(a), s, M(Head(a), s, i)), {})
MAll(a, s, q) == IF q = <<>> THEN <<>> ELSE MSeq(a, s, Head(q)) \o MAll(a, s, Tail(q))
MAlt(a, s, i) == IF a = <<>> THEN <<>> ELSE M(Head(a), s, i) \o MAlt(Tail(a), s, i)
\* repetition; the repeated expression never matches the empty string
Rep(r, s, i, n) ==
  LET more == IF r.max >= 0 /\ n >= r.max THEN <<>>
              ELSE LET q == M(r.a[1], s, i)
                       F[j \in 0..Len(q)] == IF j = 0 THEN <<>> ELSE F[j - 1] \o Rep(r, s, q[j], n + 1)
                   IN F[Len(q)]
      stop == IF n >= r.min THEN <<i>> ELSE <<>>
  IN IF r.greedy = 1 THEN more \o stop ELSE stop \o more
\* re.search from position i; after an empty match the next one at the same place must not be empty
RECURSIVE Search(_, _, _, _)
Search(r, s, i, advance) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET q == SelectSeq(M(r, s, i), LAMBDA j : ~advance \/ j # i)
       IN IF q # <<>> THEN <<i, Head(q)>> ELSE Search(r, s, i + 1, FALSE)
RECURSIVE Find(_, _, _, _, _)
Find(r, s, i, advance, n) ==
  IF n = 0 THEN <<>> ELSE LET m == Search(r, s, i, advance) IN
  IF m = <<>> THEN <<>> ELSE <<m>> \o Find(r, s, m[2], m[1] = m[2], n - 1)
FindAll(r, s) == Find(r, s, 1, FALSE, -1)
\* ---- recorded cases: c.o.v = <<texts, matches>>; a match is [from, to, text], or <<>> for None
Texts(c) == c.o.v[1]
Ms(c) == c.o.v[2]
Real(c) == SelectSeq(Ms(c), LAMBDA m : m.some = 1)
Alternate(c) == LET F[i \in 1..Len(Ms(c))] == Texts(c)[i] \o Ms(c)[i].text
                IN Concat([i \in 1..Len(Ms(c)) |-> F[i]]) \o Texts(c)[Len(Texts(c))]
\* the shape: count matches, count+1 texts; texts and matches cut the string exactly
CutClauses(c) ==
  Clause("2*count+1 elements", Len(Texts(c)) = c.count + 1 /\ Len(Ms(c)) = c.count)
  \cup (IF Len(Texts(c)) # Len(Ms(c)) + 1 THEN {} ELSE
        Clause("pieces concatenate to the string", Alternate(c) = c.s)
        \cup Clause("each match cuts the string where its span is",
               \A i \in 1..Len(Ms(c)) : Ms(c)[i].some = 1 =>
                  LET m == Ms(c)[i]
                      before == Concat([j \in 1..(2 * i - 1) |-> IF j % 2 = 1 THEN Texts(c)[(j + 1) \div 2] ELSE Ms(c)[j \div 2].text])
                  IN m.from = Len(before) + 1 /\ m.text = SubSeq(c.s, m.from, m.to - 1)))
ForwardClauses(c) ==
  LET f == Find(c.r, c.s, 1, FALSE, c.count)
      got == [i \in 1..Len(Real(c)) |-> <<Real(c)[i].from, Real(c)[i].to>>]
  IN Clause("the first count matches", got = f)
     \cup Clause("missing matches are padded on the right with (None, '')",
            \A i \in 1..Len(Ms(c)) : (Ms(c)[i].some = 0) = (i > Len(f)) /\ (i > Len(f) => Texts(c)[i + 1] = <<>>))
Spans(ms) == [i \in 1..Len(ms) |-> <<ms[i].from, ms[i].to>>]
\* some matching attempt at m.from, possibly with the string cut off at a later position, gives m
Genuine(c, m) == \E e \in (m[2] - 1)..Len(c.s) : LET q == M(c.r, To(c.s, e), m[1]) IN q # <<>> /\ m[2] \in Range(q)
\* right to left: latest end first, then earliest start, never beyond the previous match
\* (skip: not the empty match there, which was found before)
Best(c, before, skip) ==
  LET t == To(c.s, before - 1)
      cand == {x \in {<<k, Head(M(c.r, t, k))>> : k \in {j \in 1..before : M(c.r, t, j) # <<>>}} : ~skip \/ x # <<before, before>>}
  IN IF cand = {} THEN <<>> ELSE
     LET e == MaxOf({x[2] : x \in cand}) IN CHOOSE x \in cand : x[2] = e /\ \A y \in cand : y[2] = e => x[1] <= y[1]
\* of the matches starting inside the last forward match m, the one ending last, then starting first
Last(c, m) ==
  LET K == m[1]..Max2(m[1], m[2] - 1)
      cand == {<<k, Head(M(c.r, c.s, k))>> : k \in {j \in K : M(c.r, c.s, j) # <<>>}}
      e == MaxOf({x[2] : x \in cand})
  IN CHOOSE x \in cand : x[2] = e /\ \A y \in cand : y[2] = e => x[1] <= y[1]
\* does the pattern look at anything but the text it matches?
RECURSIVE ContextFree(_)
ContextFree(r) == /\ r.k \in {"set", "seq", "alt", "rep"}
                  /\ r.k = "set" \/ \A i \in 1..Len(r.a) : ContextFree(r.a[i])
\* Scanning from the right for matches is exactly defined when no match starting inside a forward match
\* extends into the next one, and no empty match is preferred to a longer one.  (The library looks for
\* overlapping matches inside forward matches only.)
Contained(r, s) ==
  /\ \A k \in 1..(Len(s) + 1) : LET q == M(r, s, k) IN q # <<>> /\ Head(q) = k => Len(q) = 1
  /\ LET f == FindAll(r, s) IN
     \A i \in 1..(Len(f) - 1) : \A k \in f[i][1]..(f[i][2] - 1) : \A e \in k..Len(s) :
          LET q == M(r, To(s, e), k) IN q # <<>> => Head(q) <= f[i + 1][1]
NotBefore(x, y) == x[2] > y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
RECURSIVE Ideal(_, _, _, _)
Ideal(c, before, n, skip) == IF n = 0 THEN <<>> ELSE LET b == Best(c, before, skip) IN
                       IF b = <<>> THEN <<>> ELSE <<b>> \o Ideal(c, b[1], n - 1, b[1] = b[2])
\* got: the matches from right to left, at most n
Backward(c, got, n) ==
  LET f == FindAll(c.r, c.s) IN
  Clause("non-overlapping, right to left", \A i \in 1..(Len(got) - 1) : got[i + 1][2] <= got[i][1] /\ got[i + 1] # got[i])
  \cup Clause("genuine matches", \A i \in 1..Len(got) : Genuine(c, got[i]))
  \cup Clause("finds a match whenever there is one", n = 0 \/ ((got = <<>>) = (f = <<>>)))
  \cup (IF n = 0 \/ got = <<>> \/ f = <<>> THEN {} ELSE Clause("the rightmost match is not missed", NotBefore(got[1], Last(c, f[Len(f)]))))
  \cup (IF ContextFree(c.r) /\ Contained(c.r, c.s)
        THEN Clause("all matches, right to left", got = Ideal(c, Len(c.s) + 1, n, FALSE)) ELSE {})
Reversed(c) ==
  LET got == Spans(Real(c)) IN
  Backward(c, Rev(got), c.count)
  \cup Clause("missing matches are padded on the left with ('', None)",
        \A i \in 1..Len(Ms(c)) : Ms(c)[i].some = 0 => /\ Texts(c)[i] = <<>>
                                                      /\ \A j \in 1..i : Ms(c)[j].some = 0)
RegexVerdict(c) ==
  IF c.fn = "finditer"
  THEN (IF c.o.ok = 0 \/ c.o.t # "matches" THEN {"yields matches"} ELSE
        Backward(c, Spans(c.o.v), -1)
        \cup Clause("spans", \A i \in 1..Len(c.o.v) : c.o.v[i].text = SubSeq(c.s, c.o.v[i].from, c.o.v[i].to - 1)))
  ELSE IF c.o.ok = 0 \/ c.o.t # "parts" \o TypeName(c.b) THEN {"returns a tuple of strings and matches"}
  ELSE LET cut == CutClauses(c) IN IF cut # {} THEN cut ELSE IF c.reverse = 1 THEN Reversed(c) ELSE ForwardClauses(c)
=============================================================================
