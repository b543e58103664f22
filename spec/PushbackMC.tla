----------------------------- MODULE PushbackMC -----------------------------
EXTENDS Pushback, Json
CONSTANTS MaxLen, SrcLen
VARIABLES st, ev, hist    \* hist: ghost - values pushed and source values not yet returned, as a bag count
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o s : x \in S, s \in Seqs(S, n - 1)}
Items == {1, 2, -1, 0}
Calls == IF ~st.live THEN {[op |-> "new", src |-> s] : s \in Seqs(Items, SrcLen)}
         ELSE {[op |-> "push", x |-> x] : x \in {1, 2}}
         \cup {[op |-> o] : o \in {"next", "nextn", "bool", "iter", "drain"}} \cup {[op |-> "nextd", d |-> 3]}
Init == st = PInit0(0) /\ ev = [op |-> "init"] /\ hist = 0
Next == \E e \in Calls :
          /\ st' = PAfter(st, e) /\ ev' = e
          /\ Len(All(st')) <= MaxLen
          /\ hist' = hist + (IF e.op = "push" THEN 1 ELSE IF e.op = "new" THEN Len(UntilStop(e.src)) ELSE 0)
                     - (IF e.op = "drain" THEN Len(All(st)) - Len(All(st'))
                        ELSE IF e.op \in {"next", "nextd", "nextn"} /\ All(st) # <<>> THEN 1
                        ELSE IF e.op = "bool" /\ PResult(st, e).ok = 0 THEN 1 ELSE 0)
Edge == PrintT(ToJson([s |-> [st EXCEPT !.n = 0], e |-> ev', t |-> [st' EXCEPT !.n = 0]]))
View == [st EXCEPT !.n = 0]
\* nothing lost, nothing duplicated: as many are pending as were put in and not taken out
Conserved == hist = Len(All(st))
=============================================================================
