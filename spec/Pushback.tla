------------------------------ MODULE Pushback ------------------------------
(* big.itertools.PushbackIterator (property C12).                          *)
(* State: st.p, the values pushed and not yet taken, last pushed first;    *)
(* st.s, what the wrapped iterator will still do; st.n, how often it has   *)
(* had to be asked.                                                        *)
(* An element x > 0 is a value; x < 0 is "raise exception -x"; 0 is "raise *)
(* StopIteration" (whatever follows it must never be asked for).           *)
EXTENDS Outcome, TLC
ExcName(x) == <<"ValueError", "KeyError", "RuntimeError", "IndexError", "BASE:GeneratorExit", "StopAsyncIteration", "EOFError", "AttributeError", "TypeError", "Stopped">>[-x]
PInit0(h) == [p |-> <<>>, s |-> <<>>, n |-> 0, live |-> FALSE]
Val(x) == Ok("val", x)
RECURSIVE UntilStop(_)
UntilStop(s) == IF s = <<>> \/ Head(s) = 0 THEN <<>> ELSE <<Head(s)>> \o UntilStop(Tail(s))
All(st) == st.p \o st.s
\* what a step does: with an exhausted sequence, with a value, with an exception
Step(st, empty, onvalue(_)) ==
  IF All(st) = <<>> THEN empty ELSE IF Head(All(st)) < 0 THEN Raise(ExcName(Head(All(st)))) ELSE onvalue(Head(All(st)))
\* everything up to the first exception
RECURSIVE Drain(_)
Drain(p) == IF p = <<>> THEN <<>> ELSE IF Head(p) < 0 THEN <<>> ELSE <<Head(p)>> \o Drain(Tail(p))
Failing(p) == \E i \in 1..Len(p) : p[i] < 0
FirstBad(p) == CHOOSE i \in 1..Len(p) : p[i] < 0 /\ \A j \in 1..(i-1) : p[j] > 0
PResult(st, ev) ==
  CASE ev.op \in {"new", "push", "taken"} -> None
    [] ev.op = "next"  -> Step(st, Raise("StopIteration"), Val)
    [] ev.op = "nextd" -> Step(st, Val(ev.d), Val)     \* .next(default)
    [] ev.op = "nextn" -> Step(st, Val(2), Val)        \* .next(): None, which is the value numbered 2
    [] ev.op = "bool"  -> Step(st, Bool(FALSE), LAMBDA x : Bool(TRUE))
    [] ev.op = "iter"  -> Bool(TRUE)                   \* iter(it) is it
    [] ev.op = "drain" -> IF Failing(All(st)) THEN Raise(ExcName(All(st)[FirstBad(All(st))])) ELSE Ok("vals", Drain(All(st)))
Asked(st, k) == [st EXCEPT !.n = @ + k]
Take(st) == IF st.p # <<>> THEN [st EXCEPT !.p = Tail(@)]
            ELSE IF st.s # <<>> THEN [st EXCEPT !.s = Tail(@), !.n = @ + 1] ELSE [st EXCEPT !.n = @ + 1]
PAfter(st, ev) ==
  CASE ev.op = "new"  -> [p |-> <<>>, s |-> UntilStop(ev.src), n |-> 0, live |-> TRUE]
    [] ev.op = "push" -> [st EXCEPT !.p = <<ev.x>> \o @]
    [] ev.op \in {"next", "nextd", "nextn"} -> Take(st)
    [] ev.op = "bool" -> IF st.p # <<>> THEN st
                         ELSE IF st.s # <<>> /\ Head(st.s) > 0 THEN [st EXCEPT !.p = <<Head(st.s)>>, !.s = Tail(@), !.n = @ + 1]
                         ELSE Take(st)
    [] ev.op = "drain" -> LET a == All(st)
                              rest == IF Failing(a) THEN SubSeq(a, FirstBad(a) + 1, Len(a)) ELSE <<>>
                          IN [st EXCEPT !.p = <<>>, !.s = rest, !.n = @ + Len(st.s) - Len(rest) + (IF Failing(a) THEN 0 ELSE 1)]
    [] OTHER -> st
\* "taken": ev.n is how often the wrapped iterator has been asked: never for more than was needed
PClauses(st, ev) == IF ev.op = "taken" THEN Clause("reads_ahead", ev.n <= st.n) ELSE Clause("result", Same(ev.o, PResult(st, ev)))
=============================================================================
