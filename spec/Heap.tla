-------------------------------- MODULE Heap --------------------------------
(* big.heap.Heap and its iterators (properties C03 and C04).               *)
(* State: st.hs  - for each heap, the sorted sequence of its contents      *)
(*        st.its - for each iterator, the heap it belongs to, the values   *)
(*                 it has still to yield, and whether it is stale:         *)
(*                 "no"    - heap not modified since it was created        *)
(*                 "yes"   - contents were modified                        *)
(*                 "maybe" - a mutator ran that happened to change nothing *)
EXTENDS Outcome, TLC
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>>
                ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), Head(s))
RECURSIVE Delete(_, _)
Delete(s, x) == IF s = <<>> THEN <<>> ELSE IF Head(s) = x THEN Tail(s) ELSE <<Head(s)>> \o Delete(Tail(s), x)
Member(s, x) == \E i \in 1..Len(s) : s[i] = x

(* Python indexing and slicing of a list; NoneI stands for an omitted bound *)
NoneI == 9999
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Index(s, i) == LET j == IF i < 0 THEN i + Len(s) ELSE i
               IN IF j >= 0 /\ j < Len(s) THEN IntV(s[j + 1]) ELSE Raise("IndexError")
Clamp(i, n, lo, hi) == LET j == IF i < 0 THEN i + n ELSE i IN Max(lo, Min(hi, j))
RECURSIVE Pick(_, _, _, _)
Pick(s, a, b, c) == IF (c > 0 /\ a >= b) \/ (c < 0 /\ a <= b) THEN <<>>
                    ELSE <<s[a + 1]>> \o Pick(s, a + c, b, c)
Slice(s, a0, b0, c0) ==
  LET n == Len(s)
      c == IF c0 = NoneI THEN 1 ELSE c0
      a == IF a0 = NoneI THEN (IF c > 0 THEN 0 ELSE n - 1)
           ELSE IF c > 0 THEN Clamp(a0, n, 0, n) ELSE Clamp(a0, n, -1, n - 1)
      b == IF b0 = NoneI THEN (IF c > 0 THEN n ELSE -1)
           ELSE IF c > 0 THEN Clamp(b0, n, 0, n) ELSE Clamp(b0, n, -1, n - 1)
  IN IF c = 0 THEN Raise("ValueError") ELSE ListOf("int", Pick(s, a, b, c))

(* what each operation does to the contents q of its heap, and returns *)
Mutators == {"append", "extend", "remove", "popleft", "append_and_popleft", "popleft_and_append", "clear"}
Contents(q, ev) ==
  CASE ev.op = "append"             -> Insert(q, ev.x)
    [] ev.op = "extend"             -> Sort(q \o ev.xs)
    [] ev.op = "remove"             -> Delete(q, ev.x)
    [] ev.op = "popleft"            -> IF q = <<>> THEN q ELSE Tail(q)
    [] ev.op = "append_and_popleft" -> Tail(Insert(q, ev.x))
    [] ev.op = "popleft_and_append" -> IF q = <<>> THEN q ELSE Insert(Tail(q), ev.x)
    [] ev.op = "clear"              -> <<>>
    [] OTHER                        -> q
\* did the call raise (then nothing at all happened)
Fails(q, ev) == \/ ev.op \in {"popleft", "popleft_and_append"} /\ q = <<>>
                \/ ev.op = "remove" /\ ~Member(q, ev.x)

Result(st, ev) ==
  LET q == st.hs[ev.h] IN
  CASE ev.op \in {"append", "extend", "clear"} -> None
    [] ev.op = "extendraise"  -> Raise("ZeroDivisionError")
    [] ev.op = "remove"       -> IF Member(q, ev.x) THEN None ELSE Raise("ValueError")
    [] ev.op = "popleft"      -> IF q = <<>> THEN Raise("IndexError") ELSE IntV(q[1])
    [] ev.op = "append_and_popleft" -> IntV(Insert(q, ev.x)[1])
    [] ev.op = "popleft_and_append" -> IF q = <<>> THEN Raise("IndexError") ELSE IntV(q[1])
    [] ev.op = "index"        -> Index(q, ev.i)
    [] ev.op = "slice"        -> Slice(q, ev.a, ev.b, ev.c)
    [] ev.op = "badindex"     -> Raise("TypeError")
    [] ev.op = "contains"     -> Bool(Member(q, ev.x))
    [] ev.op = "cforeign"     -> Bool(FALSE)                 \* (a value that cannot even be compared with <)
    [] ev.op = "rforeign"     -> Raise("ValueError")
    [] ev.op = "len"          -> IntV(Len(q))
    [] ev.op = "bool"         -> Bool(q # <<>>)
    [] ev.op = "queue"        -> ListOf("int", q)
    [] ev.op = "list"         -> ListOf("int", q)
    [] ev.op = "eq"           -> Bool(q = st.hs[ev.g])
    [] ev.op = "ne"           -> Bool(q # st.hs[ev.g])
    [] ev.op = "eqother"      -> Bool(FALSE)
    [] ev.op = "repr"         -> Ok("reprlen", Len(q))
    [] ev.op = "iteriter" -> Bool(TRUE)
    [] ev.op \in {"copy", "new", "iter"} -> None
    [] OTHER -> Assert(FALSE, <<"unknown operation", ev>>)

\* the allowed outcomes of a step of iterator it
NextOk(it, o) ==
  LET live  == Same(o, IF it.rest = <<>> THEN Raise("StopIteration") ELSE IntV(Head(it.rest)))
      stale == Same(o, Raise("RuntimeError"))
  IN CASE it.stale = "no" -> live [] it.stale = "yes" -> stale [] OTHER -> live \/ stale

HAfter(st, ev) ==
  CASE ev.op \in Mutators ->
         LET q == st.hs[ev.h]  r == Contents(q, ev) IN
         IF Fails(q, ev) THEN st ELSE
         [st EXCEPT !.hs[ev.h] = r,
                    !.its = [i \in DOMAIN @ |-> IF @[i].h # ev.h \/ @[i].stale = "yes" THEN @[i]
                                                ELSE [@[i] EXCEPT !.stale = IF r # q THEN "yes" ELSE "maybe"]]]
    [] ev.op = "copy" -> [st EXCEPT !.hs = Append(@, st.hs[ev.h])]
    [] ev.op = "new"  -> [st EXCEPT !.hs = Append(@, Sort(ev.xs))]
    [] ev.op = "iter" -> [st EXCEPT !.its = Append(@, [h |-> ev.h, rest |-> st.hs[ev.h], stale |-> "no"])]
    [] ev.op = "next" ->
         LET it == st.its[ev.k] IN
         IF ev.o.exc = "RuntimeError" THEN [st EXCEPT !.its[ev.k].stale = "yes"]
         ELSE [st EXCEPT !.its[ev.k].stale = "no",
                         !.its[ev.k].rest = IF it.rest = <<>> THEN <<>> ELSE Tail(it.rest)]
    [] OTHER -> st

HInit0(h) == [hs |-> <<>>, its |-> <<>>]
HClauses(st, ev) ==
     Clause("result", IF ev.op = "next" THEN NextOk(st.its[ev.k], ev.o) ELSE Same(ev.o, Result(st, ev)))
\cup Clause("contents", ev.qs.ok = 1 /\ ev.qs.v = HAfter(st, ev).hs)
=============================================================================
