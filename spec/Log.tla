-------------------------------- MODULE Log --------------------------------
(* big.log.Log (property C11).  Strings are sequences of code points.      *)
(* Times are pairs <<seconds, nanoseconds>> (TLC integers are 32 bits).    *)
(* State: st.now - the clock; st.start - its value at the last reset;      *)
(*        st.stack - the names entered; st.evs - <<time, text, depth>>.    *)
EXTENDS Outcome, TLC
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] - b[2] + 1000000000>>
Plus(a, b)  == LET n == a[2] + b[2] IN IF n < 1000000000 THEN <<a[1] + b[1], n>> ELSE <<a[1] + b[1] + 1, n - 1000000000>>
StartText == <<108, 111, 103, 32, 115, 116, 97, 114, 116>>   \* "log start"
SpStart   == <<32, 115, 116, 97, 114, 116>>                  \* " start"
SpEnd     == <<32, 101, 110, 100>>                           \* " end"
First     == <<(<<0, 0>>), StartText, 0>>
LInit0(h) == [now |-> <<0, 0>>, start |-> <<0, 0>>, stack |-> <<>>, evs |-> <<>>]
Record(st, text, depth) == [st EXCEPT !.evs = Append(@, <<Minus(st.now, st.start), text, depth>>)]
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE LogN(_, _, _)
LogN(st, x, n) == IF n = 0 THEN st ELSE LogN(Record(st, x, Len(st.stack)), x, n - 1)
Fails(st, ev) == ev.op = "exit" /\ st.stack = <<>>
LAfter(st, ev) ==
  CASE ev.op \in {"new", "reset"} -> [st EXCEPT !.start = st.now, !.stack = <<>>, !.evs = <<First>>]
    [] ev.op = "tick"  -> [st EXCEPT !.now = Plus(@, ev.dt)]
    [] ev.op = "log"   -> Record(st, ev.x, Len(st.stack))
    [] ev.op = "enter" -> [Record(st, ev.x \o SpStart, Len(st.stack)) EXCEPT !.stack = Append(@, ev.x)]
    [] ev.op = "exit"  -> IF st.stack = <<>> THEN st
                          ELSE [Record(st, Top(st.stack) \o SpEnd, Len(st.stack) - 1) EXCEPT !.stack = Pop(@)]
    [] ev.op = "iterlog" -> LogN(st, ev.x, IF ev.n < Len(st.evs) THEN ev.n ELSE Len(st.evs))
    [] OTHER -> st
\* what iterating yields: <<time, time until the next event, text, depth>>
Listing(evs) == [i \in 1..Len(evs) |-> <<evs[i][1], IF i = Len(evs) THEN <<0, 0>> ELSE Minus(evs[i + 1][1], evs[i][1]),
                                         evs[i][2], evs[i][3]>>]
\* rendering
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Fill(c, n) == [i \in 1..n |-> c]
Pad0(s, w) == Fill(48, IF w > Len(s) THEN w - Len(s) ELSE 0) \o s
Time(t, sw, fw) == Pad0(Digits(t[1]), sw) \o <<46>> \o SubSeq(Pad0(Digits(t[2]), 9), 1, IF fw < 9 THEN fw ELSE 9)
Line(r, ev) == Fill(32, ev.indent) \o Time(r[1], ev.sw, ev.fw) \o <<32, 32>> \o Time(r[2], ev.sw, ev.fw)
               \o <<32, 32>> \o Fill(32, ev.indent * r[4]) \o r[3]
Rendered(st, ev) == LET l == Listing(st.evs) IN [i \in DOMAIN l |-> Line(l[i], ev)]
HeadLines(ev) == (IF ev.title = <<>> THEN 0 ELSE 1) + (IF ev.headings = 1 THEN 2 ELSE 0)
LClauses(st, ev) ==
     Clause("result", IF Fails(st, ev) THEN Raised(ev.o)
                      ELSE IF ev.op = "print" THEN ev.o.ok = 1
                      \* the events there were when the iteration began, whatever is logged meanwhile
                      ELSE IF ev.op = "iterlog" THEN ev.o.ok = 1 /\ ev.o.v = Listing(st.evs)
                      ELSE Same(ev.o, None))
\cup Clause("events", ev.list.ok = 1 /\ ev.list.v = Listing(LAfter(st, ev).evs))
\cup (IF ev.op = "print" /\ ev.o.ok = 1
      THEN LET n == HeadLines(ev)  lines == ev.o.v
               good == Len(lines) = n + Len(st.evs) IN
           Clause("number of lines", good)
           \cup Clause("title", good /\ ev.title # <<>> => lines[1] = ev.title)
           \cup Clause("rendering", good => SubSeq(lines, n + 1, Len(lines)) = Rendered(st, ev))
      ELSE {})
=============================================================================
