------------------------------ MODULE GraphMC ------------------------------
EXTENDS Graph, Json
CONSTANTS Nodes, MaxViews, MaxGraphs, SelfLoops, Ops
VARIABLES st, ev
Pairs == {<<a, b>> \in Nodes \X Nodes : SelfLoops \/ a # b}
Subseqs(S) == {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}
G == 1..Len(st.gs)
V == 1..Len(st.vs)
Calls ==
  IF st.gs = <<>> THEN {[op |-> "new", items |-> <<>>]} ELSE
  {e \in
       {[op |-> "add", g |-> g, x |-> x, ds |-> <<>>] : g \in G, x \in Nodes}
  \cup {[op |-> "add", g |-> g, x |-> p[2], ds |-> <<p[1]>>] : g \in G, p \in Pairs}
  \cup {[op |-> "remove", g |-> g, x |-> x] : g \in G, x \in Nodes}
  \cup {[op |-> "ready", v |-> v] : v \in V}
  \cup UNION {{[op |-> "done", v |-> v, ns |-> s] : s \in {<<>>} \cup Subseqs(Nodes)} : v \in V}
  \cup {[op |-> "reset", v |-> v] : v \in V}
  \cup {[op |-> "close", v |-> v] : v \in {w \in V : \A g \in G : st.gs[g].dv # w}}
  \cup {[op |-> o, g |-> g] : o \in {"cycle", "check", "static", "len"}, g \in G}
  \cup (IF Len(st.vs) < MaxViews THEN {[op |-> "view", g |-> g] : g \in G} \cup {[op |-> "vcopy", v |-> v] : v \in V} ELSE {})
  \cup (IF Len(st.vs) < MaxViews /\ Len(st.gs) < MaxGraphs THEN {[op |-> "gcopy", g |-> g] : g \in G} ELSE {})
   : e.op \in Ops}
Init == st = GInit0(0) /\ ev = [op |-> "init"]
Next == \E e \in Calls : ev' = e /\ st' = GAfter(st, e)
Edge == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
View == st
(* invariants of the design *)
Sane == \A i \in V : LET v == st.vs[i]  H == st.gs[v.g] IN
          v.open => /\ v.y \cup v.d \subseteq H.n /\ v.y \cap v.d = {}
                    /\ v.c \subseteq H.e
\* a node is never out before its predecessors are done, except where the view is incoherent
Order == \A i \in V : LET v == st.vs[i]  H == st.gs[v.g] IN
          v.open => \A x \in v.y \cup v.d : \A p \in Preds(H, x) : p \in v.d \/ <<p, x>> \in v.c
\* an acyclic graph is always worked off completely: while a coherent view is true, something is ready or out
Progress == \A i \in V : LET v == st.vs[i]  H == st.gs[v.g] IN
          v.open /\ v.c = {} /\ ~Cyclic(H) /\ v.d # H.n => v.y # {} \/ ReadyNodes(H, v) # {}
\* an incoherent view really has returned a node whose predecessor is not done
Incoherent == \A i \in V : LET v == st.vs[i] IN v.open => \A q \in v.c : q[2] \in v.y \cup v.d /\ q[1] \notin v.d
=============================================================================
