---------------------------- MODULE SchedulerMC ----------------------------
EXTENDS Scheduler, Json
CONSTANTS MaxEvents, MaxNow, Rels, Abss, Pris
VARIABLES st, ev, out     \* out: ghost - sequence of <<event, clock at which it was yielded>>, and the cancelled ids
vars == <<st, ev, out>>
Env == {[op |-> "sched", abs |-> FALSE, t |-> t, p |-> p] : t \in Rels, p \in Pris}
       \cup {[op |-> "sched", abs |-> TRUE, t |-> t, p |-> p] : t \in Abss, p \in Pris}
       \cup {[op |-> "cancel", id |-> i] : i \in 0..st.n}
       \cup {[op |-> "adv", d |-> 1]} \cup {[op |-> o] : o \in {"queue", "bool", "nb", "drain"}}
Calls ==
  CASE st.mode = "idle"  -> Env \cup {[op |-> "begin"]}
    [] st.mode = "run"   -> IF st.pend # {} /\ Due(st) = {}
                            THEN {[op |-> "sleep", d |-> First(st.pend).t - st.now]}
                            ELSE {[op |-> "end"]}
    [] st.mode = "sleep" -> Env \cup {[op |-> "wake"]}
Init == st = SInit0(0) /\ ev = [op |-> "init"] /\ out = [y |-> <<>>, c |-> {}]
Yielded(s, e) ==
  CASE e.op \in {"nb", "end"} /\ SResult(s, e).ok = 1 -> <<[a |-> First(s.pend), now |-> s.now]>>
    [] e.op = "drain" -> [i \in 1..Cardinality(Due(s)) |-> [a |-> Sorted(Due(s))[i], now |-> s.now]]
    [] OTHER -> <<>>
Next == \E e \in Calls :
          /\ st' = SAfter(st, e) /\ ev' = e
          /\ st'.n <= MaxEvents /\ st'.now <= MaxNow
          /\ out' = [y |-> out.y \o Yielded(st, e),
                     c |-> out.c \cup (IF e.op = "cancel" /\ Pending(st, e.id) THEN {e.id} ELSE {})]
Edge == PrintT(ToJson([s |-> [s |-> st, q |-> Ids(Sorted(st.pend))], e |-> ev', t |-> [s |-> st', q |-> Ids(Sorted(st'.pend))]]))
View == st
YieldedIds == {out.y[i].a.id : i \in 1..Len(out.y)}
\* every scheduled event is exactly one of: pending, yielded (once), cancelled
Conserved == /\ 1..st.n = {a.id : a \in st.pend} \cup YieldedIds \cup out.c
             /\ Cardinality({a.id : a \in st.pend}) + Len(out.y) + Cardinality(out.c) = st.n
NeverEarly == \A i \in 1..Len(out.y) : out.y[i].a.t <= out.y[i].now
=============================================================================
