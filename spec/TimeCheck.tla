----------------------------- MODULE TimeCheck -----------------------------
(* Cases recorded from the real code.  A moment c.in is given as            *)
(*   k = "num":  i (the instant)        frac: it is a float                 *)
(*   k = "clock": c (the clock) and off (seconds ahead of UTC)              *)
(*   k = "local": c in the local time zone c.tz, fold (2: not told)         *)
(*   k = "now":  lo, hi: instants around the call                           *)
EXTENDS Time, Outcome
TOf(z, m) == CASE m.k = "num" -> {m.i} [] m.k = "clock" -> {TAt(m.c, m.off)} [] m.k = "local" -> IF m.fold = 2 THEN TMeant(z, m.c) ELSE {TFold(z, m.c, m.fold)}
TWant(c) == c.want = 1 \/ (c.want = 2 /\ c.in.frac = 1)
TRenders(c, i) == IF c.fn = "human" THEN THumanTexts(TLocal(c.tz, i), TWant(c)) ELSE {TText3339(TClock(i), TWant(c))}
TRender(c, i) == IF c.fn = "human" THEN TTextHuman(TLocal(c.tz, i), TWant(c)) ELSE TText3339(TClock(i), TWant(c))
TTextClauses(c) ==
  IF c.in.k = "bad" THEN Clause("type_error", c.o.ok = 0 /\ c.o.exc = "TypeError")
  ELSE IF c.in.k = "now"
  THEN Clause("now", c.o.t = "str" /\ Len(c.o.v) = Len(TRender(c, c.in.lo)) /\ TLeq(TRender(c, c.in.lo), c.o.v) /\ TLeq(c.o.v, TRender(c, c.in.hi)))
  ELSE LET right == \/ \E i \in TOf(c.tz, c.in) : \E t \in TRenders(c, i) : Same(c.o, Ok("str", t))
                    \* (a datetime in local time already is shown as it is, even if no clock ever showed it)
                    \/ c.in.k = "local" /\ c.fn = "human" /\ c.in.fold # 2 /\ \E t \in THumanTexts(c.in.c, TWant(c)) : Same(c.o, Ok("str", t))
           \* (a float rendered without its fraction though none was refused: a failure told apart from the others)
           cut == c.in.k = "num" /\ c.in.frac = 1 /\ c.want = 2 /\ c.fn = "3339"
                  /\ Same(c.o, Ok("str", TRender([c EXCEPT !.want = 0], c.in.i)))
       IN Clause("text", right \/ cut) \cup Clause("float_default_fraction", right \/ ~cut)
\* the driver's stimuli must be what they say they are: parse: text of c.in rendered by the real code
TParseClauses(c) ==       \* o: [c (clock), off (or -100000 if naive)] of the datetime returned
  IF c.o.ok = 0 THEN {"parses"}
  ELSE IF c.zoned = 1 THEN Clause("aware", c.o.v.off # -100000) \cup Clause("same_instant", c.o.v.off = -100000 \/ TAt(c.o.v.c, c.o.v.off) = TAt(c.c, c.off))
  ELSE Clause("clock", c.o.v.c = c.c) \cup Clause("default_zone", c.o.v.zone = c.zone)
TZoneClauses(c) ==        \* o: c, fold, zone (number of the zone object, 0 none), same (the object given)
  IF c.o.ok = 0 THEN {"returns"}
  ELSE Clause("clock", c.o.v.c = c.c) \cup Clause("fold", c.o.v.fold = c.fold)
       \cup Clause("zone", c.o.v.zone = IF c.fn = "ensure" /\ c.has # 0 THEN c.has ELSE c.zone)
       \cup Clause("left_alone", c.fn = "ensure" /\ c.has # 0 => c.o.v.same = 1)
TVerdict(c) == CASE c.what = "text" -> TTextClauses(c) [] c.what = "parse" -> TParseClauses(c) [] c.what = "zone" -> TZoneClauses(c)
=============================================================================
