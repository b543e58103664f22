------------------------------- MODULE Words -------------------------------
(* English number words (property C35): from an integer, given as decimal  *)
(* digits, to the words of int_to_words, and back.                         *)
EXTENDS Outcome, TLC
WUnits == <<"one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve", "thirteen",
            "fourteen", "fifteen", "sixteen", "seventeen", "eighteen", "nineteen">>
WTens == <<"ten", "twenty", "thirty", "forty", "fifty", "sixty", "seventy", "eighty", "ninety">>
WBig == <<"thousand", "million", "billion", "trillion", "quadrillion", "quintillion", "sextillion", "septillion", "octillion",
          "nonillion", "decillion", "undecillion", "duodecillion", "tredecillion", "quattuordecillion", "quindecillion",
          "sexdecillion", "septdecillion", "octodecillion", "novemdecillion", "vigintillion">>
WVigint == 63
WMax == 75                                            \* numbers of more digits are not named
\* digits: most significant first, no leading zeros ("0" is <<0>>)
RECURSIVE WStrip(_)
WStrip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN WStrip(Tail(d)) ELSE d
WZero(d) == \A i \in DOMAIN d : d[i] = 0
\* a number below 100 / below 1000: tokens, words and separators alternate
WTwo(n) == IF n < 20 THEN <<WUnits[n]>>
           ELSE IF n % 10 = 0 THEN <<WTens[n \div 10]>> ELSE <<WTens[n \div 10], "-", WUnits[n % 10]>>
WAnd(fl) == IF fl = 1 THEN <<" ", "and", " ">> ELSE <<" ">>
WComma(fl) == IF fl = 1 THEN <<", ">> ELSE <<" ">>
WThree(n, fl) == IF n < 100 THEN WTwo(n)
                 ELSE <<WUnits[n \div 100], " ", "hundred">> \o (IF n % 100 = 0 THEN <<>> ELSE WAnd(fl) \o WTwo(n % 100))
WNum3(d) == IF Len(d) = 1 THEN d[1] ELSE IF Len(d) = 2 THEN 10 * d[1] + d[2] ELSE 100 * d[1] + 10 * d[2] + d[3]
\* the groups of three digits: g[1] the units, g[2] the thousands, ...
WGroups(d) == LET n == (Len(d) + 2) \div 3
              IN [k \in 1..n |-> LET hi == Len(d) - 3 * (k - 1) lo == IF hi < 3 THEN 1 ELSE hi - 2 IN WNum3(SubSeq(d, lo, hi))]
\* what separates the group of units from what stands before it
WLast(n, fl) == IF n < 100 THEN WAnd(fl) ELSE WComma(fl)
RECURSIVE WDown(_, _, _)
WDown(g, k, fl) ==          \* groups k, k-1, ..., 1, each preceded by a separator
  IF k = 0 THEN <<>>
  ELSE IF g[k] = 0 THEN WDown(g, k - 1, fl)
  ELSE (IF k = 1 THEN WLast(g[1], fl) \o WThree(g[1], fl) ELSE WComma(fl) \o WThree(g[k], fl) \o <<" ", WBig[k - 1]>>)
       \o WDown(g, k - 1, fl)
RECURSIVE WPositive(_, _)
WPositive(d, fl) ==
  IF Len(d) > WVigint + 3
  THEN \* whole vigintillions are themselves named
       LET up == SubSeq(d, 1, Len(d) - WVigint)
           g == WGroups(SubSeq(d, Len(d) - WVigint + 1, Len(d)))
       IN WPositive(up, fl) \o <<" ", "vigintillion">> \o WDown(g, Len(g), fl)
  ELSE LET g == WGroups(d) n == Len(g)
       IN (IF n = 1 THEN WThree(g[1], fl) ELSE WThree(g[n], fl) \o <<" ", WBig[n - 1]>>) \o WDown(g, n - 1, fl)
WCardinal(neg, d, fl) == IF WZero(d) THEN <<"zero">>
                         ELSE (IF neg = 1 THEN <<"negative", " ">> ELSE <<>>) \o WPositive(d, fl)
\* ordinals: the last word changes
WOrdWord(w) ==
  CASE w = "one" -> {"first"} [] w = "two" -> {"second"} [] w = "three" -> {"third"} [] w = "five" -> {"fifth"}
    [] w = "eight" -> {"eighth"} [] w = "nine" -> {"ninth"} [] w = "twelve" -> {"twelfth", "twelveth"}
    [] w = "twenty" -> {"twentieth"} [] w = "thirty" -> {"thirtieth"} [] w = "forty" -> {"fortieth"} [] w = "fifty" -> {"fiftieth"}
    [] w = "sixty" -> {"sixtieth"} [] w = "seventy" -> {"seventieth"} [] w = "eighty" -> {"eightieth"} [] w = "ninety" -> {"ninetieth"}
    [] w = "quindecillion" -> {"quindecillionth", "qindecillionth"}
    [] OTHER -> {w \o "th"}
WOrdinal(ws) == {SubSeq(ws, 1, Len(ws) - 1) \o <<w>> : w \in WOrdWord(ws[Len(ws)])}
\* what is allowed
WExpected(neg, d, fl, ord) == IF ord = 1 THEN WOrdinal(WCardinal(neg, d, fl)) ELSE {WCardinal(neg, d, fl)}
\* spellings and spacing that are as good
WNorm(t) == IF t \in {"  ", "   "} THEN " " ELSE IF t = "qindecillion" THEN "quindecillion" ELSE t
WNormAll(ws) == [i \in DOMAIN ws |-> WNorm(ws[i])]
(* ---- reading: the value of number words, by the rules of English ---- *)
WIndex(s, w) == IF \E i \in DOMAIN s : s[i] = w THEN CHOOSE i \in DOMAIN s : s[i] = w ELSE 0
WWordsOnly(ws) == SelectSeq(ws, LAMBDA t : t \notin {" ", ", ", "-", "and"})
RECURSIVE WRead(_, _, _)
WRead(ws, total, cur) ==    \* (for values that fit TLC's integers)
  IF ws = <<>> THEN total + cur
  ELSE LET w == Head(ws) IN
    IF w = "zero" THEN WRead(Tail(ws), total, cur)
    ELSE IF WIndex(WUnits, w) # 0 THEN WRead(Tail(ws), total, cur + WIndex(WUnits, w))
    ELSE IF WIndex(WTens, w) # 0 THEN WRead(Tail(ws), total, cur + 10 * WIndex(WTens, w))
    ELSE IF w = "hundred" THEN WRead(Tail(ws), total, cur * 100)
    ELSE WRead(Tail(ws), total + cur * (1000 ^ WIndex(WBig, w)), 0)
(* ---- recorded cases: c.neg, c.d, c.fl, c.ord; c.o.t = "words" or "digits" ---- *)
WVerdict(c) ==
  IF c.bad = 1 THEN Clause("ValueError for what is not an integer", c.o.exc = "ValueError")
  ELSE IF c.o.ok = 0 THEN {"returns"}
  ELSE IF Len(c.d) > WMax THEN Clause("decimal digits", c.o.t = "digits" /\ c.o.v = (IF c.neg = 1 THEN <<-1>> ELSE <<>>) \o c.d)
  ELSE IF c.o.t # "words" THEN {"words"}
  ELSE LET got == WNormAll(c.o.v) IN
       Clause("the words of the number", got \in WExpected(c.neg, c.d, c.fl, c.ord))
=============================================================================
