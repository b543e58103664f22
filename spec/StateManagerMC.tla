--------------------------- MODULE StateManagerMC ---------------------------
EXTENDS StateManager, Json
CONSTANTS NStates, MaxObs, MaxDepth, CfgNo
VARIABLES st, ev
States == 1..NStates
Seqq(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
Cfgs == <<[exit |-> Seqq(States), enter |-> Seqq(States), wrong |-> <<>>, typed |-> 0],
          [exit |-> <<>>, enter |-> <<1, 2>>, wrong |-> <<>>, typed |-> 0],
          [exit |-> <<2, 3>>, enter |-> <<>>, wrong |-> <<3>>, typed |-> 1]>>
EnvCalls ==
  IF ~st.made /\ st.fr = <<>> THEN {[op |-> "new", s |-> s] : s \in States \cup {0}}
  ELSE (IF Len(st.fr) < MaxDepth THEN {[op |-> "assign", s |-> s] : s \in States \cup {0}} ELSE {})
  \cup (IF Len(st.obs) < MaxObs THEN {[op |-> "oadd", o |-> o, at |-> a] : o \in 1..2, a \in 0..Len(st.obs)} ELSE {})
  \cup {[op |-> "odel", at |-> a] : a \in 1..Len(st.obs)}
  \cup {[op |-> "oreplace", os |-> <<2>>]}
  \cup (IF st.fr # <<>> THEN {[op |-> "ret"], [op |-> "raise", exc |-> "Boom"]} ELSE {})
Init == st = SInit0(Cfgs[CfgNo]) /\ ev = [op |-> "init"]
Next == \E e \in IF st.env THEN EnvCalls ELSE {Expected(st)} : ev' = e /\ st' = SAfter(st, e)
\* a failed constructor leaves nothing to go on with
Alive == ~(st.env /\ ~st.made /\ ev.op = "end")
Slim(s) == [cur |-> s.cur, next |-> s.next, obs |-> s.obs, fr |-> s.fr, env |-> s.env, made |-> s.made]
Edge == PrintT(ToJson([s |-> Slim(st), e |-> ev', t |-> Slim(st')]))
View == Slim(st)
(* invariants of the protocol *)
InTransition(f) == f.rej = {} /\ f.ph \in {"exit", "snap", "obs"}
\* next is set exactly while one call is between its start and its commit; at most one such call; it is not buried
           \* under calls other than rejected ones
NextSet == /\ st.next # 0 <=> \E i \in DOMAIN st.fr : InTransition(st.fr[i])
           /\ \A i, j \in DOMAIN st.fr : InTransition(st.fr[i]) /\ InTransition(st.fr[j]) => i = j
           /\ \A i \in DOMAIN st.fr : InTransition(st.fr[i]) => st.next = st.fr[i].s
\* during on_exit and the observers the old state is still visible
OldVisible == \A i \in DOMAIN st.fr : InTransition(st.fr[i]) => st.cur # st.fr[i].s
NeverNone == st.made /\ st.next = 0 => st.cur # 0
=============================================================================
