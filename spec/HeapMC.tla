------------------------------- MODULE HeapMC -------------------------------
(* Explores the Heap specification exhaustively in a small scope, checks   *)
(* its invariants, and prints every transition for replay on the real code *)
EXTENDS Heap, FiniteSets, Json
CONSTANTS Vals, MaxLen, MaxIts, Reads
VARIABLES st, ev
Nil == [op |-> "init"]
Ids == 1..MaxIts
Calls ==
  LET h == 1 IN
     {[op |-> o, h |-> h, x |-> x] : o \in {"append", "append_and_popleft", "popleft_and_append", "remove"}, x \in Vals}
  \cup {[op |-> o, h |-> h] : o \in {"popleft", "clear"}}
  \cup {[op |-> "extend", h |-> h, xs |-> <<x, y>>] : x, y \in Vals}
  \cup {[op |-> "extendraise", h |-> h, xs |-> <<x>>] : x \in Vals}
  \cup (IF Reads THEN
          {[op |-> "index", h |-> h, i |-> i] : i \in -(MaxLen+2)..(MaxLen+2)}
     \cup {[op |-> "slice", h |-> h, a |-> a, b |-> b, c |-> c] :
             a, b \in {NoneI} \cup (-(MaxLen+1)..(MaxLen+1)), c \in {NoneI, 1, 2, -1, -2, 0}}
     \cup {[op |-> "contains", h |-> h, x |-> x] : x \in Vals}
     \cup {[op |-> o, h |-> h] : o \in {"len", "bool", "queue", "list", "repr", "eqother"}}
        ELSE {})
  \cup (IF Len(st.its) < MaxIts THEN {[op |-> "iter", h |-> h]} ELSE {})
  \cup {[op |-> "next", h |-> h, k |-> k] : k \in DOMAIN st.its}
Outcome0(e) == IF e.op = "next"
               THEN LET it == st.its[e.k] IN
                    IF it.stale = "yes" THEN Raise("RuntimeError")
                    ELSE IF it.rest = <<>> THEN Raise("StopIteration") ELSE IntV(Head(it.rest))
               ELSE Result(st, e)
\* leave out calls whose effect on live iterators is unspecified
Clear(e) == st.its = <<>> \/ e.op \notin Mutators \/ Fails(st.hs[1], e) \/ Contents(st.hs[1], e) # st.hs[1]
Init == st = [hs |-> <<(<<>>)>>, its |-> <<>>] /\ ev = Nil
Next == \E e \in Calls :
          /\ Clear(e)
          /\ LET e1 == [x \in DOMAIN e \cup {"o"} |-> IF x = "o" THEN Outcome0(e) ELSE e[x]] IN
             /\ Len(HAfter(st, e1).hs[1]) <= MaxLen
             /\ st' = HAfter(st, e1)
             /\ ev' = e
Edge == PrintT(ToJson([s |-> st, e |-> ev', t |-> st']))
View == st
(* invariants of the design *)
Sorted == \A h \in DOMAIN st.hs : \A i \in 1..(Len(st.hs[h]) - 1) : st.hs[h][i] <= st.hs[h][i + 1]
\* a fresh iterator can yield only what its heap holds; a live one is in step with the heap
ItersOK == \A k \in DOMAIN st.its : LET it == st.its[k]  q == st.hs[it.h] IN
              it.stale = "no" => Len(it.rest) <= Len(q) /\ it.rest = SubSeq(q, Len(q) - Len(it.rest) + 1, Len(q))
=============================================================================
