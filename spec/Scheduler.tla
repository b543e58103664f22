----------------------------- MODULE Scheduler -----------------------------
(* big.scheduler.Scheduler in one thread (property C01), with an abstract  *)
(* regulator: the clock st.now is advanced by the environment.             *)
(* st.pend: the pending events [id, t, p]; ids are numbered in order of    *)
(* scheduling.  st.mode: "idle"; "run" (a blocking next() is computing);   *)
(* "sleep" (it has called the regulator's sleep).  Any operation may       *)
(* happen during the sleep, which may end at any time.                     *)
EXTENDS Outcome, TLC, FiniteSets
SInit0(h) == [now |-> 0, n |-> 0, pend |-> {}, mode |-> "idle"]
Before(a, b) == \/ a.t < b.t
                \/ a.t = b.t /\ a.p < b.p
                \/ a.t = b.t /\ a.p = b.p /\ a.id < b.id
First(P) == CHOOSE a \in P : \A b \in P : a = b \/ Before(a, b)
RECURSIVE Sorted(_)
Sorted(P) == IF P = {} THEN <<>> ELSE LET a == First(P) IN <<a>> \o Sorted(P \ {a})
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
Due(st) == {a \in st.pend : a.t <= st.now}
DefaultPriority == 100
When(st, ev) == IF ev.abs THEN ev.t ELSE st.now + ev.t
Pending(st, id) == \E a \in st.pend : a.id = id
SResult(st, ev) ==
  CASE ev.op = "sched"  -> Ok("event", st.n + 1)
    [] ev.op = "cancel" -> IF Pending(st, ev.id) THEN None ELSE Raise("ValueError")
    [] ev.op = "burn"   -> IntV(ev.k)         \* k events that were scheduled before all others, each yielded at once
    [] ev.op = "queue"  -> Ok("ids", Ids(Sorted(st.pend)))
    [] ev.op = "bool"   -> Bool(st.pend # {})
    [] ev.op = "nb"     -> IF Due(st) = {} THEN Raise("StopIteration") ELSE Ok("obj", First(st.pend).id)
    [] ev.op = "drain"  -> Ok("ids", Ids(Sorted(Due(st))))          \* list(s.non_blocking())
    [] ev.op = "end"    -> IF st.pend = {} THEN Raise("StopIteration") ELSE Ok("obj", First(st.pend).id)
    [] OTHER -> None
SAfter(st, ev) ==
  CASE ev.op = "sched"  -> [st EXCEPT !.n = @ + 1,
                              !.pend = @ \cup {[id |-> st.n + 1, t |-> When(st, ev), p |-> ev.p]}]
    [] ev.op = "cancel" -> [st EXCEPT !.pend = {a \in @ : a.id # ev.id}]
    [] ev.op = "burn"   -> [st EXCEPT !.n = @ + ev.k]
    [] ev.op = "adv"    -> [st EXCEPT !.now = @ + ev.d]
    [] ev.op = "nb"     -> IF Due(st) = {} THEN st ELSE [st EXCEPT !.pend = @ \ {First(@)}]
    [] ev.op = "drain"  -> [st EXCEPT !.pend = @ \ Due(st)]
    [] ev.op = "begin"  -> [st EXCEPT !.mode = "run"]
    [] ev.op = "sleep"  -> [st EXCEPT !.mode = "sleep"]
    [] ev.op = "wake"   -> [st EXCEPT !.mode = "run"]
    [] ev.op = "end"    -> [st EXCEPT !.mode = "idle", !.pend = IF @ = {} THEN {} ELSE @ \ {First(@)}]
    [] OTHER -> st
SClauses(st, ev) ==
  CASE ev.op \in {"begin", "wake", "adv"} -> {}
    [] ev.op = "sleep" ->
         Clause("sleeps only in a blocking next()", st.mode = "run")
         \cup Clause("sleeps only while nothing is due", st.pend # {} /\ Due(st) = {})
         \cup (IF st.pend = {} THEN {} ELSE Clause("never sleeps past the first pending event", ev.d <= First(st.pend).t - st.now))
         \cup Clause("sleeps a positive time", ev.d > 0)
    [] ev.op = "end" ->
         Clause("result of next()", Same(ev.o, SResult(st, ev)))
         \cup Clause("never early", st.pend = {} \/ Due(st) # {})
    [] OTHER -> Clause("result of " \o ev.op, Same(ev.o, SResult(st, ev)))
=============================================================================
