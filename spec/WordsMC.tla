------------------------------ MODULE WordsMC ------------------------------
(* Writing and reading are inverse, and different numbers have different    *)
(* words.                                                                   *)
EXTENDS Words, Integers
CONSTANT Limit
VARIABLE n
Bases == {0, 1000, 99900, 100000, 999000, 1000000, 1999900, 10000000, 100000000, 999999000, 1000000000, 2000000000}
Init == n \in {b + k : b \in Bases, k \in {j \in 0..(Limit - 1) : j % 50 = 0}}
Next == n % 50 # 49 /\ n' = n + 1
RECURSIVE DigitsOf(_)
DigitsOf(x) == IF x < 10 THEN <<x>> ELSE Append(DigitsOf(x \div 10), x % 10)
Inverse == \A fl \in {0, 1} : WRead(WWordsOnly(WCardinal(0, DigitsOf(n), fl)), 0, 0) = n
\* flowery only adds separators
Same2 == WWordsOnly(WCardinal(1, DigitsOf(n), 0)) = WWordsOnly(WCardinal(1, DigitsOf(n), 1))
Plain == \A i \in DOMAIN WCardinal(0, DigitsOf(n), 0) : WCardinal(0, DigitsOf(n), 0)[i] \notin {", ", "and"}
=============================================================================
