------------------------------- MODULE LogMC -------------------------------
EXTENDS Log, Json
CONSTANTS MaxEvs
VARIABLES st, ev
Names == {<<97>>, <<98, 98>>}
Deltas == {<<0, 1>>, <<1, 999999999>>}
Calls == IF st.evs = <<>> THEN {[op |-> "new"]}
         ELSE {[op |-> "log", x |-> <<120>>], [op |-> "exit"], [op |-> "reset"]}
              \cup {[op |-> "enter", x |-> x] : x \in Names} \cup {[op |-> "tick", dt |-> d] : d \in Deltas}
Init == st = LInit0(0) /\ ev = [op |-> "init"]
Next == \E e \in Calls :
          /\ ev' = e /\ st' = LAfter(st, e)
          /\ Len(st'.evs) <= MaxEvs /\ Len(st'.stack) <= 2
          \* at most one tick between two events, so that the state space is finite
          /\ (ev'.op = "tick" => Minus(st.now, st.start) = st.evs[Len(st.evs)][1])
Edge == PrintT(ToJson([s |-> [st EXCEPT !.now = Minus(st.now, st.start), !.start = 0], e |-> ev',
                       t |-> [st' EXCEPT !.now = Minus(st'.now, st'.start), !.start = 0]]))
View == <<Minus(st.now, st.start), st.stack, st.evs>>
\* invariants of the design
TimesMonotone == \A i \in 1..Len(st.evs) - 1 : LET a == st.evs[i][1]  b == st.evs[i+1][1] IN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
ElapsedSums == LET L == Listing(st.evs) IN \A i \in 1..Len(L) - 1 : Plus(L[i][1], L[i][2]) = L[i + 1][1]
DepthSteps == \A i \in 1..Len(st.evs) - 1 : st.evs[i+1][3] - st.evs[i][3] \in {-1, 0, 1}
=============================================================================
