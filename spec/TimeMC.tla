------------------------------ MODULE TimeMC ------------------------------
(* The closed forms against the calendar's own rule, day by day, and the    *)
(* laws of the texts.  (400 years are the whole cycle of the calendar.)     *)
EXTENDS Time, FiniteSets
CONSTANTS FirstYear, LastYear
VARIABLES n, d
Init == \E y \in {y \in FirstYear..LastYear : (y - FirstYear) % 10 = 0} : d = <<y, 1, 1>> /\ n = TDays(y, 1, 1)
Next == ~(d[1] % 10 = 9 /\ d[2] = 12 /\ d[3] = 31) /\ d' = TNextDate(d) /\ n' = n + 1
Agree == TDate(n) = d /\ TDays(d[1], d[2], d[3]) = n
Epoch == TDays(1970, 1, 1) = 0
Secs == {0, 1, 59, 60, 3599, 3600, 43200, 86399}
Uss == {0, 1, 15625, 999999}
\* later instants give greater texts: across midnight, and within a day
Ordered ==
  /\ TLess(TText3339(TClock(<<n, 86399, 999999>>), TRUE), TText3339(TClock(<<n + 1, 0, 0>>), TRUE))
  /\ d[3] # 1 \/ \A s \in Secs, t \in Secs : s < t => TLess(TText3339(TClock(<<n, s, 999999>>), TRUE), TText3339(TClock(<<n, t, 0>>), TRUE))
\* moving to another zone and back changes nothing
Offs == {0, 19800, -12600, 50400, -43200, 1, -86399, 86399}
Back == \A o \in Offs : TMove(TMove(<<n, 86399, 5>>, o), 0 - o) = <<n, 86399, 5>> /\ TAt(TClock(TMove(<<n, 1, 7>>, o)), o) = <<n, 1, 7>>
\* summer time: a clock means the instant it shows; every change of the year makes one gap and one repeated stretch
Zones == {<<-18000, -14400, 3, 2, 0, 7200, 11, 1, 0, 7200>>, <<3600, 7200, 3, 5, 0, 7200, 10, 5, 0, 10800>>,
          <<36000, 39600, 10, 1, 0, 7200, 4, 1, 0, 10800>>, <<37800, 39600, 10, 1, 0, 7200, 4, 1, 0, 7200>>,
          <<19800, 19800, 1, 1, 0, 0, 1, 1, 0, 0>>}
Hours == {0, 3599, 3600, 5399, 6000, 7200, 9000, 10799, 10800, 43200, 55800, 57600, 86399}
ZShown == d[1] % 70 # 4 \/ \A z \in Zones, s \in Hours : <<n, s, 3>> \in TMeant(z, TLocal(z, <<n, s, 3>>))
ZFolds == d[1] % 70 # 4 \/ \A z \in Zones, s \in Hours :
  LET c == d \o <<s \div 3600, (s \div 60) % 60, s % 60, 3>>
      a == TFold(z, c, 0)
      b == TFold(z, c, 1)
  IN IF TSkipped(z, c) THEN TBefore(b, a) /\ TLocal(z, a) # c ELSE TLocal(z, a) = c /\ TLocal(z, b) = c /\ ~TBefore(b, a)
ZBalance == ~(d[2] = 12 /\ d[3] = 31 /\ d[1] % 70 = 4) \/ \A z \in Zones :
  LET first == TDays(d[1], 1, 1)
      gaps == {k \in first..n : \E s \in Hours : TSkipped(z, TDate(k) \o <<s \div 3600, (s \div 60) % 60, s % 60, 3>>)}
      reps == {k \in first..n : \E s \in Hours : LET c == TDate(k) \o <<s \div 3600, (s \div 60) % 60, s % 60, 3>> IN TFold(z, c, 0) # TFold(z, c, 1) /\ ~TSkipped(z, c)}
  IN LET q == IF z[1] = z[2] THEN 0 ELSE 1 IN Cardinality(gaps) = q /\ Cardinality(reps) = q
=============================================================================
