----------------------------- MODULE VersionMC -----------------------------
(* The order of the specification itself: each field's comparison is a      *)
(* total preorder (all triples), versions that differ in up to two fields   *)
(* are ordered by the more significant one, and parsing undoes rendering.   *)
EXTENDS Version
CONSTANT Rich
Ns == {NoNum, Zero, <<51>>} \cup (IF Rich THEN {<<49, 48>>} ELSE {})
Releases == {<<<<49>>>>, <<<<49>>, Zero, <<50>>>>} \cup (IF Rich THEN {<<Zero>>, <<<<49, 48>>>>, <<<<49>>, <<49, 48>>>>} ELSE {})
Locals == {<<>>, <<<<97>>>>, <<<<49>>>>} \cup (IF Rich THEN {<<<<97>>, <<49>>>>, <<<<48, 49>>>>, <<<<97, 49>>>>} ELSE {})
Vals == <<{NoNum, Zero, <<49>>}, Releases, {"alpha", "rc", "final"}, Ns, Ns, Ns, Locals>>
Make(t) == GoodVersion(t[1], t[2], t[3], IF t[3] = "final" THEN NoNum ELSE t[4], t[5], t[6], t[7])
Universe == {t \in Vals[1] \X Vals[2] \X Vals[3] \X Vals[4] \X Vals[5] \X Vals[6] \X Vals[7] : t[3] # "final" \/ t[4] = NoNum}
Preorder(S, C(_, _)) == \A a, b, c \in S : /\ C(a, a) = 0
                                           /\ ((C(a, b) < 0) <=> (C(b, a) > 0))
                                           /\ ((C(a, b) <= 0 /\ C(b, c) <= 0) => (C(a, c) <= 0 /\ ((C(a, c) = 0) => (C(a, b) = 0 /\ C(b, c) = 0))))
Numbers == {Zero, <<49>>, <<57>>, <<49, 48>>, <<57, 57>>, <<49, 48, 48>>}
Segs == {<<97>>, <<98>>, <<97, 98>>, <<49>>, <<48, 49>>, <<49, 48>>, <<97, 49>>, <<49, 97>>}
Seqs2(S) == {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
ASSUME Preorder(Numbers, NumCmp)
ASSUME Preorder(Numbers \cup {NoNum}, PostCmp)
ASSUME Preorder(Numbers \cup {NoNum}, DevCmp)
ASSUME Preorder(Segs, LocalPartCmp)
ASSUME Preorder({<<>>} \cup Seqs2({<<97>>, <<49>>, <<48, 49>>, <<49, 97>>}), LocalDiff)
ASSUME Preorder(Seqs2({Zero, <<49>>, <<49, 48>>}), FirstDiff)
VARIABLES x, y
vars == <<x, y>>
Init == x \in Universe /\ y = x
Next == /\ y = x
        /\ \E i, j \in 1..7 : i <= j /\ \E u \in Vals[i], v \in Vals[j] : y' = [[x EXCEPT ![i] = u] EXCEPT ![j] = v]
        /\ UNCHANGED x
FieldCmp(i, a, b) == CASE i = 1 -> NumCmp(OrZero(a), OrZero(b)) [] i = 2 -> FirstDiff(a, b) [] i = 3 -> LevelRank(a) - LevelRank(b)
                       [] i = 4 -> NumCmp(OrZero(a), OrZero(b)) [] i = 5 -> PostCmp(a, b) [] i = 6 -> DevCmp(a, b) [] i = 7 -> LocalDiff(a, b)
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Final(t) == IF t[3] = "final" THEN [t EXCEPT ![4] = NoNum] ELSE t
BySignificance ==
  LET a == Final(x)  b == Final(y)  diff == {i \in 1..7 : FieldCmp(i, a[i], b[i]) # 0}
  IN Sign(VersionCmp(Make(x), Make(y))) =
       (IF diff = {} THEN 0 ELSE LET i == CHOOSE k \in diff : \A l \in diff : k <= l IN Sign(FieldCmp(i, a[i], b[i])))
Antisymmetric == Sign(VersionCmp(Make(x), Make(y))) = -Sign(VersionCmp(Make(y), Make(x)))
EqualHasOneText == (VersionCmp(Make(x), Make(y)) = 0) => (VersionText([Make(x) EXCEPT !.local = <<>>]) = VersionText([Make(y) EXCEPT !.local = <<>>]))
RoundTrip == SameNormal(Make(x), VersionText(Make(x)))
=============================================================================
