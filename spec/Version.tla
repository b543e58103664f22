------------------------------ MODULE Version ------------------------------
(* Version numbers (C29): PEP 440 syntax, normal form, order.               *)
(* Numbers are their decimal digits without leading zeros, so there is no   *)
(* bound on them.                                                           *)
EXTENDS TextBase
VDigits == 48..57
VLetters == 97..122
RECURSIVE VUnzero(_)
VUnzero(d) == IF Len(d) > 1 /\ d[1] = 48 THEN VUnzero(Tail(d)) ELSE d
Zero == <<48>>
NoNum == <<>>                       \* the number is absent
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] = b[1] THEN LexLess(Tail(a), Tail(b)) ELSE a[1] < b[1]
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))
\* ---- the parser: a position p and what has been read
VLower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
AtV(s, p, S) == p <= Len(s) /\ s[p] \in S
RECURSIVE RunEnd(_, _, _)
RunEnd(s, p, S) == IF AtV(s, p, S) THEN RunEnd(s, p + 1, S) ELSE p
VSep == {45, 95, 46}                \* - _ .
Skip1(s, p, S) == IF AtV(s, p, S) THEN p + 1 ELSE p
Word(w) == CASE w = "alpha" -> <<97,108,112,104,97>> [] w = "a" -> <<97>> [] w = "beta" -> <<98,101,116,97>> [] w = "b" -> <<98>>
             [] w = "rc" -> <<114,99>> [] w = "c" -> <<99>> [] w = "preview" -> <<112,114,101,118,105,101,119>> [] w = "pre" -> <<112,114,101>>
             [] w = "post" -> <<112,111,115,116>> [] w = "rev" -> <<114,101,118>> [] w = "r" -> <<114>> [] w = "dev" -> <<100,101,118>>
PreWords == [alpha |-> "alpha", a |-> "alpha", beta |-> "beta", b |-> "beta", rc |-> "rc", c |-> "rc", preview |-> "rc", pre |-> "rc"]
PostWords == {"post", "rev", "r"}
\* the longest of the words found at p, or "" if none
WordAt(s, p, W) == LET f == {w \in W : StartsAt(s, p, Word(w))} IN
                   IF f = {} THEN "" ELSE CHOOSE w \in f : \A x \in f : Len(Word(x)) <= Len(Word(w))
\* a labelled part ([sep] label [sep] [digits]): [p, label, n] (label "" if absent; n = NoNum if it has no number)
Labelled(s, p, W) ==
  LET q == Skip1(s, p, VSep)  w == WordAt(s, q, W)  r == q + Len(Word(w))  d == Skip1(s, r, VSep)  e == RunEnd(s, d, VDigits)
  IN IF w = "" THEN [p |-> p, label |-> "", n |-> NoNum]
     ELSE [p |-> e, label |-> w, n |-> IF e > d THEN VUnzero(SubSeq(s, d, e - 1)) ELSE NoNum]
RECURSIVE DotNumbers(_, _, _)
DotNumbers(s, p, acc) ==            \* digits (. digits)* from p; <<numbers, p>>
  LET e == RunEnd(s, p, VDigits)  a == Append(acc, VUnzero(SubSeq(s, p, e - 1)))
  IN IF AtV(s, e, {46}) /\ AtV(s, e + 1, VDigits) THEN DotNumbers(s, e + 1, a) ELSE <<a, e>>
RECURSIVE LocalParts(_, _, _)
LocalParts(s, p, acc) ==
  LET e == RunEnd(s, p, VDigits \cup VLetters)  a == Append(acc, SubSeq(s, p, e - 1))
  IN IF AtV(s, e, VSep) /\ AtV(s, e + 1, VDigits \cup VLetters) THEN LocalParts(s, e + 1, a) ELSE <<a, e>>
RECURSIVE TrimZeros(_)
TrimZeros(r) == IF Len(r) > 1 /\ r[Len(r)] = Zero THEN TrimZeros(To(r, Len(r) - 1)) ELSE r
BadVersion == [good |-> FALSE]
GoodVersion(epoch, release, level, serial, post, dev, local) ==
  [good |-> TRUE, epoch |-> epoch, release |-> TrimZeros(release), level |-> level, serial |-> serial, post |-> post, dev |-> dev, local |-> local]
ParseVersion(text) ==
  LET s == VLower(text)
      p0 == RunEnd(s, 1, StrWs)
      p1 == Skip1(s, p0, {118})
      e1 == RunEnd(s, p1, VDigits)
      hasEpoch == e1 > p1 /\ AtV(s, e1, {33})
      epoch == IF hasEpoch THEN VUnzero(SubSeq(s, p1, e1 - 1)) ELSE NoNum
      p2 == IF hasEpoch THEN e1 + 1 ELSE p1
      rel == DotNumbers(s, p2, <<>>)
      pre == Labelled(s, rel[2], DOMAIN PreWords)
      dash == RunEnd(s, pre.p + 1, VDigits)
      isDash == AtV(s, pre.p, {45}) /\ dash > pre.p + 1
      post == IF isDash THEN [p |-> dash, label |-> "post", n |-> VUnzero(SubSeq(s, pre.p + 1, dash - 1))]
              ELSE Labelled(s, pre.p, PostWords)
      dev == Labelled(s, post.p, {"dev"})
      hasLocal == AtV(s, dev.p, {43}) /\ AtV(s, dev.p + 1, VDigits \cup VLetters)
      loc == IF hasLocal THEN LocalParts(s, dev.p + 1, <<>>) ELSE <<<<>>, dev.p>>
      Implicit(l) == IF l.label # "" /\ l.n = NoNum THEN Zero ELSE l.n
  IN IF ~AtV(s, p2, VDigits) THEN BadVersion
     ELSE IF RunEnd(s, loc[2], StrWs) <= Len(s) THEN BadVersion
     ELSE GoodVersion(epoch, rel[1], IF pre.label = "" THEN "final" ELSE PreWords[pre.label], pre.n, Implicit(post), Implicit(dev), loc[1])
\* ---- construction from keyword arguments.  Numbers: <<>> for None.
KwLevel(l) == IF l = "none" THEN "final" ELSE IF l \in DOMAIN PreWords THEN PreWords[l] ELSE l
KwVersion(k) ==
  LET lv == KwLevel(k.level) IN
  IF lv \notin {"alpha", "beta", "rc", "final"} \/ k.release = <<>> \/ (k.haslocal = 1 /\ k.local = <<>>)
     \/ (\E i \in 1..Len(k.local) : k.local[i] = <<>> \/ (Range(VLower(k.local[i])) \ (VDigits \cup VLetters)) # {})
     \/ (lv = "final" /\ k.serial \notin {NoNum, Zero})
     \* no number is negative
     \/ (\E i \in 1..Len(k.release) : Range(k.release[i]) \ VDigits # {})
     \/ (\E n \in {k.epoch, k.serial, k.post, k.dev} : n # NoNum /\ Range(n) \ VDigits # {})
  THEN BadVersion
  ELSE GoodVersion(k.epoch, k.release, lv, k.serial, k.post, k.dev, [i \in 1..Len(k.local) |-> VLower(k.local[i])])
Built(x) == IF x.how = "s" THEN ParseVersion(x.s) ELSE KwVersion(x)
\* ---- the order
LevelRank(l) == CASE l = "alpha" -> 0 [] l = "beta" -> 1 [] l = "rc" -> 2 [] l = "final" -> 3
OrZero(n) == IF n = NoNum THEN Zero ELSE n
IsNumeric(x) == Range(x) \subseteq VDigits
NumCmp(a, b) == IF a = b THEN 0 ELSE IF NumLess(a, b) THEN -1 ELSE 1
\* absent sorts first (post) or last (dev)
PostCmp(a, b) == CASE a = b -> 0 [] a = NoNum -> -1 [] b = NoNum -> 1 [] OTHER -> NumCmp(a, b)
DevCmp(a, b)  == CASE a = b -> 0 [] a = NoNum -> 1 [] b = NoNum -> -1 [] OTHER -> NumCmp(a, b)
LocalPartCmp(a, b) == CASE IsNumeric(a) /\ IsNumeric(b) -> NumCmp(VUnzero(a), VUnzero(b))
                        [] IsNumeric(a) -> 1 [] IsNumeric(b) -> -1
                        [] OTHER -> IF a = b THEN 0 ELSE IF LexLess(a, b) THEN -1 ELSE 1
RECURSIVE FirstDiff(_, _)
FirstDiff(a, b) == CASE a = <<>> /\ b = <<>> -> 0 [] a = <<>> /\ b # <<>> -> -1 [] a # <<>> /\ b = <<>> -> 1
                     [] OTHER -> IF a[1] = b[1] THEN FirstDiff(Tail(a), Tail(b)) ELSE NumCmp(a[1], b[1])
RECURSIVE LocalDiff(_, _)
LocalDiff(a, b) == CASE a = <<>> /\ b = <<>> -> 0 [] a = <<>> /\ b # <<>> -> -1 [] a # <<>> /\ b = <<>> -> 1
                     [] OTHER -> LET f == LocalPartCmp(a[1], b[1]) IN IF f # 0 THEN f ELSE LocalDiff(Tail(a), Tail(b))
FirstOf(cs) == LET nz == {i \in 1..Len(cs) : cs[i] # 0} IN IF nz = {} THEN 0 ELSE cs[CHOOSE i \in nz : \A j \in nz : i <= j]
VersionCmp(x, y) ==
  FirstOf(<<NumCmp(OrZero(x.epoch), OrZero(y.epoch)), FirstDiff(x.release, y.release), LevelRank(x.level) - LevelRank(y.level),
            NumCmp(OrZero(x.serial), OrZero(y.serial)), PostCmp(x.post, y.post), DevCmp(x.dev, y.dev), LocalDiff(x.local, y.local)>>)
\* ---- normal form
RECURSIVE DotJoin(_)
DotJoin(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<46>> \o DotJoin(Tail(ps))
LevelText(l) == CASE l = "alpha" -> <<97>> [] l = "beta" -> <<98>> [] l = "rc" -> <<114, 99>> [] l = "final" -> <<>>
VersionText(v) ==
  (IF OrZero(v.epoch) = Zero THEN <<>> ELSE v.epoch \o <<33>>) \o DotJoin(v.release)
  \o LevelText(v.level) \o (IF v.level = "final" \/ OrZero(v.serial) = Zero THEN <<>> ELSE v.serial)
  \o (IF v.post = NoNum THEN <<>> ELSE <<46>> \o Word("post") \o v.post)
  \o (IF v.dev = NoNum THEN <<>> ELSE <<46>> \o Word("dev") \o v.dev)
  \o (IF v.local = <<>> THEN <<>> ELSE <<43>> \o DotJoin(v.local))
\* two texts that parse to equal versions, up to leading zeros in local segments and a number 0 left out
SameNormal(v, text) == LET w == ParseVersion(text) IN
  /\ w.good /\ VersionCmp(v, w) = 0
  /\ text = VersionText(w)
  /\ Len(w.local) = Len(v.local)
\* ---- verdicts.  A record holds how two versions were built and what was seen.
Part(v, i) == IF i <= Len(v.release) THEN v.release[i] ELSE Zero
FieldOk(n, got) == got = n \/ (n \in {NoNum, Zero} /\ got \in {NoNum, Zero})
VersionVerdict(c) ==
  LET v == Built(c.a) IN
  CASE c.fn = "one" ->
         IF ~v.good THEN Clause("what is not a version number is rejected with ValueError", c.o.ok = 0 /\ c.o.exc = "ValueError")
         ELSE IF c.o.ok = 0 \/ c.o.t # "version" THEN {"every version number is accepted"}
         ELSE LET g == c.o.v IN
              Clause("str() is the normal form of the version number", SameNormal(v, g.str))
              \cup Clause("the attributes are those of the version number",
                     g.release = v.release /\ g.level = v.level /\ g.level2 = v.level /\ FieldOk(v.epoch, g.epoch) /\ FieldOk(v.serial, g.serial)
                     /\ g.post = v.post /\ g.dev = v.dev /\ g.local = v.local
                     /\ g.major = Part(v, 1) /\ g.minor = Part(v, 2) /\ g.micro = Part(v, 3))
              \cup Clause("str() parses back to an equal version number with the same text", g.again = 1 /\ g.hash1 = 1)
              \cup Clause("repr() evaluates to an equal version number", g.rep = 1)
    [] c.fn = "pair" ->
         LET w == Built(c.b)  r == VersionCmp(v, w)
             want == [eq |-> IF r = 0 THEN 1 ELSE 0, ne |-> IF r = 0 THEN 0 ELSE 1, lt |-> IF r < 0 THEN 1 ELSE 0, gt |-> IF r > 0 THEN 1 ELSE 0]
         IN IF c.o.ok = 0 \/ c.o.t # "pair" THEN {"two versions can be compared"}
            ELSE Clause("two versions are ordered by their fields",
                        c.o.v.eq = want.eq /\ c.o.v.ne = want.ne /\ c.o.v.lt = want.lt /\ c.o.v.gt = want.gt)
                 \cup Clause("equal versions hash equal", r # 0 \/ c.o.v.hash = 1)
    [] c.fn = "sort" ->
         \* the positions of the given versions in sorted order: stable and ascending
         IF c.o.ok = 0 \/ c.o.t # "order" THEN {"versions can be sorted"}
         ELSE LET vs == [i \in 1..Len(c.many) |-> Built(c.many[i])]  q == c.o.v IN
              Clause("sorting puts every version in its place",
                 /\ Len(q) = Len(vs) /\ Range(q) = 1..Len(vs)
                 /\ \A i \in 1..(Len(q) - 1) : LET r == VersionCmp(vs[q[i]], vs[q[i + 1]]) IN r < 0 \/ (r = 0 /\ q[i] < q[i + 1]))
=============================================================================
