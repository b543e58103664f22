------------------------------- MODULE Time -------------------------------
(* Instants and the proleptic Gregorian calendar, and the texts, conversions *)
(* and zone setters of big.time.                                             *)
(* An instant is <<day, second of that day, microsecond>>, days counted from *)
(* 1970-01-01 in UTC.  A clock is <<year, month, day, hour, min, sec, us>>.  *)
EXTENDS Integers, Sequences
TDivF(a, b) == a \div b                        \* (floor division, as \div is for positive b)
TLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
TMonthLen(y, m) == IF m = 2 THEN (IF TLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* the calendar: the day after
TNextDate(d) == IF d[3] < TMonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
                ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
\* closed forms of the same (TimeMC checks that they agree)
TDays(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == TDivF(yy, 400)
      yoe == yy - era * 400
      mp == (m + 9) % 12
      doy == ((153 * mp + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
TDate(n) ==
  LET z == n + 719468
      era == TDivF(z, 146097)
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
\* moving an instant by seconds
TMove(i, s) == LET t == i[2] + s IN <<i[1] + TDivF(t, 86400), t - 86400 * TDivF(t, 86400), i[3]>>
TClock(i) == TDate(i[1]) \o <<(i[2] \div 3600), ((i[2] \div 60) % 60), (i[2] % 60), i[3]>>
TInstant(c) == <<TDays(c[1], c[2], c[3]), 3600 * c[4] + 60 * c[5] + c[6], c[7]>>      \* of a clock that shows UTC
TAt(c, off) == TMove(TInstant(c), 0 - off)                                             \* of a clock off seconds ahead of UTC
\* A local time zone: <<std, dst, m1, w1, d1, t1, m2, w2, d2, t2>>: std and dst are seconds ahead of UTC; summer
\* time starts on the w1-th (5: last) day d1 (0: Sunday) of month m1 at t1 seconds standard time and ends likewise
\* at t2 seconds summer time.  std = dst: no summer time.
TNth(y, m, w, d) ==
  LET first == TDays(y, m, 1)
      n == 1 + ((d - ((first + 4) % 7)) % 7) + 7 * (w - 1)
  IN <<y, m, IF n > TMonthLen(y, m) THEN n - 7 ELSE n>>
TBefore(i, j) == i[1] < j[1] \/ (i[1] = j[1] /\ (i[2] < j[2] \/ (i[2] = j[2] /\ i[3] < j[3])))
TChange(y, m, w, d, t, off) == LET n == TNth(y, m, w, d) IN TMove(<<TDays(n[1], n[2], n[3]), 0, 0>>, t - off)
TOffset(z, i) ==
  IF z[1] = z[2] THEN z[1]
  ELSE LET y == TClock(TMove(i, z[1]))[1]
           start == TChange(y, z[3], z[4], z[5], z[6], z[1])
           end == TChange(y, z[7], z[8], z[9], z[10], z[2])
           summer == IF TBefore(start, end) THEN ~TBefore(i, start) /\ TBefore(i, end) ELSE ~TBefore(i, start) \/ TBefore(i, end)
       IN IF summer THEN z[2] ELSE z[1]
TLocal(z, i) == TClock(TMove(i, TOffset(z, i)))                                      \* what a clock in zone z shows
\* the instants a local clock may mean: both in a repeated hour; in a skipped hour, those of the offsets around it
TMeant(z, c) == LET all == {TAt(c, z[1]), TAt(c, z[2])}
                    shown == {i \in all : TClock(TMove(i, TOffset(z, i))) = c}
                IN IF shown = {} THEN all ELSE shown
TSkipped(z, c) == \A i \in TMeant(z, c) : TLocal(z, i) # c
\* fold 0 is the first of a repeated hour, and before the change (so the later instant) in a skipped one; fold 1 the other
TFold(z, c, fold) == LET m == TMeant(z, c)
                     IN CHOOSE i \in m : \A j \in m : i = j \/ (TBefore(i, j) <=> ((fold = 0) # TSkipped(z, c)))
RECURSIVE TDigits(_, _)
TDigits(n, w) == IF w = 0 THEN <<>> ELSE Append(TDigits(n \div 10, w - 1), 48 + (n % 10))
TFrac(c, want) == IF want THEN <<46>> \o TDigits(c[7], 6) ELSE <<>>
\* YYYY-MM-DDTHH:MM:SS[.ffffff]Z
TText3339(c, want) == TDigits(c[1], 4) \o <<45>> \o TDigits(c[2], 2) \o <<45>> \o TDigits(c[3], 2) \o <<84>>
   \o TDigits(c[4], 2) \o <<58>> \o TDigits(c[5], 2) \o <<58>> \o TDigits(c[6], 2) \o TFrac(c, want) \o <<90>>
\* YYYY/MM/DD HH:MM:SS[.ffffff]  (how a year before 1000 looks to a human isn't told: see THumanTexts)
RECURSIVE TBare(_)
TBare(t) == IF t[1] = 48 THEN TBare(Tail(t)) ELSE t
TTextHuman(c, want) == TDigits(c[1], 4) \o <<47>> \o TDigits(c[2], 2) \o <<47>> \o TDigits(c[3], 2) \o <<32>>
   \o TDigits(c[4], 2) \o <<58>> \o TDigits(c[5], 2) \o <<58>> \o TDigits(c[6], 2) \o TFrac(c, want)
THumanTexts(c, want) == {TTextHuman(c, want), TBare(TTextHuman(c, want))}
RECURSIVE TLess(_, _)
TLess(a, b) == a # b /\ (a = <<>> \/ (b # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ TLess(Tail(a), Tail(b))))))
TLeq(a, b) == a = b \/ TLess(a, b)
=============================================================================
