-------------------------------- MODULE Graph --------------------------------
(* big.graph.TopologicalSorter and its views (properties C07 - C10).       *)
(* st.gs: graphs  [n: set of nodes, e: set of <<predecessor, successor>>,  *)
(*                 dv: the graph's default view]                           *)
(* st.vs: views   [g: graph, y: nodes returned by ready and not done,      *)
(*                 d: nodes done, c: out-of-order dependencies, open]      *)
EXTENDS Outcome, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Preds(G, x) == {p \in G.n : <<p, x>> \in G.e}
(* a graph has no cycle iff repeatedly removing its sources empties it *)
RECURSIVE Core(_, _)
Core(n, e) == LET src == {x \in n : \A y \in n : <<y, x>> \notin e}
              IN IF src = {} THEN n ELSE Core(n \ src, e)
Cyclic(G) == Core(G.n, G.e) # {}
\* the nodes view v would return now
ReadyNodes(G, v) == {x \in G.n \ (v.y \cup v.d) : Preds(G, x) \subseteq v.d}
NewView(g) == [g |-> g, y |-> {}, d |-> {}, c |-> {}, open |-> TRUE]
GInit0(h) == [gs |-> <<>>, vs |-> <<>>]

\* adding dependencies of node x on the nodes ds
AddTo(G, x, ds) == [G EXCEPT !.n = @ \cup {x} \cup ds, !.e = @ \cup {<<p, x>> : p \in ds}]
ViewAdd(v, new) == [v EXCEPT !.c = @ \cup {q \in new : q[2] \in v.y \cup v.d /\ q[1] \notin v.d}]
RemoveFrom(G, x) == [G EXCEPT !.n = @ \ {x}, !.e = {q \in @ : q[1] # x /\ q[2] # x}]
ViewRemove(v, x) == [v EXCEPT !.y = @ \ {x}, !.d = @ \ {x}, !.c = {q \in @ : q[1] # x /\ q[2] # x}]
OnViews(vs, g, f(_)) == [i \in DOMAIN vs |-> IF vs[i].g = g /\ vs[i].open THEN f(vs[i]) ELSE vs[i]]
RECURSIVE Build(_, _)
Build(G, items) == IF items = <<>> THEN G ELSE Build(AddTo(G, items[1][1], Range(Tail(items[1]))), Tail(items))

ViewOps == {"ready", "done", "reset", "close", "vcopy"}
Closed(st, ev) == ev.op \in ViewOps /\ ~st.vs[ev.v].open
\* the exceptions a call may raise; {} if it must succeed
Fail(st, ev) ==
  CASE Closed(st, ev) -> {"ValueError"}
    [] ev.op = "ready" -> (IF st.vs[ev.v].c # {} THEN {"RuntimeError"} ELSE {})
                     \cup (IF Cyclic(st.gs[st.vs[ev.v].g]) THEN {"CycleError"} ELSE {})
    [] ev.op = "done" -> (IF st.vs[ev.v].c # {} THEN {"RuntimeError"} ELSE {})
                     \cup (IF Range(ev.ns) \subseteq st.vs[ev.v].y THEN {} ELSE {"ValueError"})
    [] ev.op = "remove" -> IF ev.x \in st.gs[ev.g].n THEN {} ELSE {"ValueError"}
    [] ev.op \in {"check", "static"} -> IF Cyclic(st.gs[ev.g]) THEN {"CycleError"} ELSE {}
    [] OTHER -> {}
GAfter(st, ev) ==
  IF Fail(st, ev) # {} THEN st ELSE
  CASE ev.op = "new" ->
         LET g == Len(st.gs) + 1  v == Len(st.vs) + 1 IN
         [gs |-> Append(st.gs, Build([n |-> {}, e |-> {}, dv |-> v], ev.items)), vs |-> Append(st.vs, NewView(g))]
    [] ev.op = "add" ->
         LET G == st.gs[ev.g]  H == AddTo(G, ev.x, Range(ev.ds))  new == H.e \ G.e IN
         [gs |-> [st.gs EXCEPT ![ev.g] = H], vs |-> OnViews(st.vs, ev.g, LAMBDA v : ViewAdd(v, new))]
    [] ev.op = "remove" ->
         [gs |-> [st.gs EXCEPT ![ev.g] = RemoveFrom(@, ev.x)], vs |-> OnViews(st.vs, ev.g, LAMBDA v : ViewRemove(v, ev.x))]
    [] ev.op = "view" -> [st EXCEPT !.vs = Append(@, NewView(ev.g))]
    [] ev.op = "vcopy" -> [st EXCEPT !.vs = Append(@, st.vs[ev.v])]
    [] ev.op = "gcopy" ->
         LET g == Len(st.gs) + 1  v == Len(st.vs) + 1 IN
         [gs |-> Append(st.gs, [st.gs[ev.g] EXCEPT !.dv = v]), vs |-> Append(st.vs, [st.vs[st.gs[ev.g].dv] EXCEPT !.g = g])]
    [] ev.op = "reset" -> [st EXCEPT !.vs[ev.v] = NewView(@.g)]
    [] ev.op = "close" -> [st EXCEPT !.vs[ev.v].open = FALSE]
    [] ev.op = "ready" -> [st EXCEPT !.vs[ev.v].y = @ \cup ReadyNodes(st.gs[st.vs[ev.v].g], st.vs[ev.v])]
    [] ev.op = "done" -> [st EXCEPT !.vs[ev.v].y = @ \ Range(ev.ns), !.vs[ev.v].d = @ \cup Range(ev.ns)]
    [] OTHER -> st

\* truth of a view, as recorded
Truth(st, v) == IF ~v.open THEN "ValueError" ELSE IF v.c # {} THEN "RuntimeError"
                ELSE IF v.d # st.gs[v.g].n THEN "1" ELSE "0"
NoDup(s) == Cardinality(Range(s)) = Len(s)
IsCycle(G, s) == /\ s # <<>> /\ NoDup(s)
                 /\ \A i \in DOMAIN s : <<s[i], s[IF i = Len(s) THEN 1 ELSE i + 1]>> \in G.e
IsTopological(G, s) == /\ NoDup(s) /\ Range(s) = G.n
                       /\ \A i, j \in DOMAIN s : <<s[i], s[j]>> \in G.e => i < j
Seq0(o, kind) == o.ok = 1 /\ o.t \in {kind \o "<>", kind \o "<int>"}
Good(st, ev) ==
  LET o == ev.o IN
  CASE ev.op = "ready" -> Seq0(o, "tuple") /\ NoDup(o.v) /\ Range(o.v) = ReadyNodes(st.gs[st.vs[ev.v].g], st.vs[ev.v])
    [] ev.op = "cycle" -> IF Cyclic(st.gs[ev.g]) THEN Seq0(o, "tuple") /\ IsCycle(st.gs[ev.g], o.v) ELSE Same(o, None)
    [] ev.op = "static" -> Seq0(o, "list") /\ IsTopological(st.gs[ev.g], o.v)
    [] ev.op = "len" -> Same(o, IntV(Cardinality(st.gs[ev.g].n)))
    [] OTHER -> Same(o, None)
GClauses(st, ev) ==
  LET f == Fail(st, ev)  st2 == GAfter(st, ev) IN
     Clause(ev.op \o ": result", IF f # {} THEN ev.o.exc \in f ELSE Good(st, ev))
\cup Clause("truth of the views afterwards", ev.truth = [i \in DOMAIN st2.vs |-> Truth(st2, st2.vs[i])])
=============================================================================
