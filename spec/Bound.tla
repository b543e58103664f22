------------------------------- MODULE Bound -------------------------------
(* Bound inner classes (C13).                                               *)
(* A program is a sequence of classes                                       *)
(*   [name, cont, bases, kind, init, byhand]                                *)
(* cont: the class whose body it is in (0: the module); kind: "plain",      *)
(* "bound" or "unbound" (its decorator), "taker" (a class outside all       *)
(* others whose __init__ takes the outer instance, for a bound class to     *)
(* inherit); init: it has its own __init__,                                 *)
(* which calls super().__init__(), passing the outer instance on by hand    *)
(* when byhand = 1.                                                         *)
(* Classes at run time are tokens: <<0, X>> is the class X as written,      *)
(* <<i, X>> is X bound to the instance i.                                   *)
EXTENDS Outcome, FiniteSets, TLC
RangeB(f) == {f[k] : k \in DOMAIN f}
NoClass == <<0, 0>>
\* ---- C3 linearization; <<NoClass>> in it means there is none
InTail(x, l) == \E k \in 2..Len(l) : l[k] = x
RECURSIVE C3Merge(_)
C3Merge(lists) ==
  LET ls == SelectSeq(lists, LAMBDA l : l # <<>>) IN
  IF ls = <<>> THEN <<>>
  ELSE LET good == {k \in DOMAIN ls : \A m \in DOMAIN ls : ~InTail(ls[k][1], ls[m])} IN
       IF good = {} THEN <<NoClass>>
       ELSE LET x == ls[CHOOSE k \in good : \A m \in good : k <= m][1] IN
            <<x>> \o C3Merge([k \in DOMAIN ls |-> IF ls[k][1] = x THEN Tail(ls[k]) ELSE ls[k]])
\* prog: the classes; inst: for each instance, the token of its class
\* look name up as an attribute of an instance: in the bodies of the classes of mro m, from position p
RECURSIVE FindName(_, _, _, _)
FindName(prog, m, p, name) ==
  IF p > Len(m) THEN 0
  ELSE LET here == {c \in DOMAIN prog : m[p][1] = 0 /\ prog[c].cont = m[p][2] /\ prog[c].name = name} IN
       IF here # {} THEN CHOOSE c \in here : TRUE ELSE FindName(prog, m, p + 1, name)
RECURSIVE MroOf(_, _, _)
RECURSIVE BasesOf(_, _, _)
Lookup(prog, inst, i, name) == FindName(prog, MroOf(prog, inst, inst[i]), 1, name)
\* a base that is itself an inner class of the same outer instance is replaced by its bound version
InheritFrom(prog, inst, i, x, b) ==
  IF prog[b].kind # "plain" /\ prog[b].name # prog[x].name /\ Lookup(prog, inst, i, prog[b].name) = b THEN <<i, b>> ELSE <<0, b>>
BasesOf(prog, inst, tok) ==
  LET bs == prog[tok[2]].bases IN
  IF tok[1] = 0 THEN [k \in DOMAIN bs |-> <<0, bs[k]>>]
  ELSE <<<<0, tok[2]>>>> \o [k \in DOMAIN bs |-> InheritFrom(prog, inst, tok[1], tok[2], bs[k])]
MroOf(prog, inst, tok) ==
  LET bs == BasesOf(prog, inst, tok) IN <<tok>> \o C3Merge([k \in DOMAIN bs |-> MroOf(prog, inst, bs[k])] \o <<bs>>)
HasMro(m) == NoClass \notin RangeB(m)
\* ---- the chain of __init__ calls when an instance of a class with mro m is constructed,
\* from position p: <<class, outer instance>> pairs; <<0, 0>> marks an ill-formed program
TakesOuter(prog, c) == prog[c].kind \in {"bound", "taker"}
\* a bound class has an __init__ that passes the outer instance on to its class's __init__; it is left out
\* when that is inherited from another bound class, which then does so
RECURSIVE HasInit(_, _, _)
FirstInit(prog, inst, m, p) == LET s == {q \in p..Len(m) : HasInit(prog, inst, m[q])} IN IF s = {} THEN 0 ELSE CHOOSE q \in s : \A r \in s : q <= r
HasInit(prog, inst, tok) ==
  IF tok[1] = 0 THEN prog[tok[2]].init = 1
  ELSE /\ prog[tok[2]].kind = "bound"
       /\ prog[tok[2]].init = 1 \/ LET m == MroOf(prog, inst, tok)  q == FirstInit(prog, inst, m, 2) IN q = 0 \/ m[q][1] = 0
Bad2 == <<<<0, 0>>>>
RECURSIVE Chain(_, _, _, _, _)
\* given: the outer instance the caller passes by hand, 0 if none
Chain(prog, inst, m, p, given) ==
  LET q == FirstInit(prog, inst, m, p) IN
  IF q = 0 THEN (IF given # 0 THEN Bad2 ELSE <<>>)
  ELSE LET tok == m[q] IN
       IF tok[1] # 0 THEN
         LET um == MroOf(prog, inst, <<0, tok[2]>>)
             d == FirstInit(prog, inst, um, 1)
             D == IF d = 0 THEN 0 ELSE um[d][2]
         IN IF given # 0 \/ D = 0 THEN Bad2
            ELSE IF ~TakesOuter(prog, D) THEN Bad2
            ELSE <<<<D, tok[1]>>>> \o Chain(prog, inst, m, (CHOOSE k \in DOMAIN m : m[k] = <<0, D>>) + 1, IF prog[D].byhand = 1 THEN tok[1] ELSE 0)
       ELSE LET D == tok[2] IN
            IF (given # 0) # TakesOuter(prog, D) THEN Bad2
            ELSE <<<<D, given>>>> \o Chain(prog, inst, m, q + 1, IF prog[D].byhand = 1 THEN given ELSE 0)
WellFormed(ch) == <<0, 0>> \notin RangeB(ch)
\* ---- what the property promises about a bound class
\* its instances get the outer instance once in every __init__ of the chain that takes one
OncePerInit(prog, inst, tok) ==
  LET m == MroOf(prog, inst, tok)  ch == Chain(prog, inst, m, 1, 0) IN
  HasMro(m) /\ (WellFormed(ch) =>
    /\ \A a, b \in DOMAIN ch : a # b => ch[a][1] # ch[b][1]
    /\ {ch[a][1] : a \in DOMAIN ch} = {m[k][2] : k \in {x \in DOMAIN m : m[x][1] = 0 /\ prog[m[x][2]].init = 1}}
    /\ \A a \in DOMAIN ch : ch[a][2] = IF TakesOuter(prog, ch[a][1]) THEN tok[1] ELSE 0)
SubclassOfUnbound(prog, inst, tok) ==
  LET m == MroOf(prog, inst, tok) IN
  /\ m[2] = <<0, tok[2]>>
  \* every class as written comes in the order of the unbound class
  /\ SelectSeq(m, LAMBDA t : t[1] = 0) = MroOf(prog, inst, <<0, tok[2]>>)
  \* a bound class comes right before what it is bound from
  /\ \A k \in DOMAIN m : m[k][1] # 0 => m[k + 1] = <<0, m[k][2]>>
\* ---- histories.  Classes seen are numbered; seen is the set of <<token, number>>
BInit0(h) == [prog |-> h.prog, inst |-> <<>>, seen |-> {}]
Fits(seen, prs) == \A a, b \in seen \cup prs : (a[1] = b[1]) <=> (a[2] = b[2])
Pairs(toks, nums) == {<<toks[k], nums[k]>> : k \in DOMAIN toks}
Token(st, i, X) == IF st.prog[X].kind = "plain" THEN <<0, X>> ELSE <<i, X>>
\* the class an event reaches
Reached(st, ev) ==
  CASE ev.op \in {"get", "make", "child", "alias"} -> Token(st, ev.i, Lookup(st.prog, st.inst, ev.i, ev.name))
    [] ev.op = "super" ->
         LET m == MroOf(st.prog, st.inst, st.inst[ev.i])
             k == CHOOSE k \in DOMAIN m : m[k] = <<0, ev.c>>
         IN Token(st, ev.i, FindName(st.prog, m, k + 1, ev.name))
    [] ev.op = "class" ->          \* through a class: instance ev.i's class (ev.i # 0), or the class c as written
         LET m == MroOf(st.prog, st.inst, IF ev.i # 0 THEN st.inst[ev.i] ELSE <<0, ev.c>>) IN <<0, FindName(st.prog, m, 1, ev.name)>>
    [] ev.op = "new" -> <<0, ev.c>>
    [] ev.op = "copy" -> st.inst[ev.i]
SeenBy(st, ev) ==
  LET t == Reached(st, ev)  m == MroOf(st.prog, st.inst, t) IN IF Len(m) = Len(ev.mro) THEN Pairs(m, ev.mro) ELSE {}
\* the calls: first the given arguments (1), then none (0)
Calls(ch) == [k \in DOMAIN ch |-> <<ch[k][1], ch[k][2], IF k = 1 THEN 1 ELSE 0>>]
BClauses(st, ev) ==
  IF ev.op = "del" THEN Clause("nothing keeps the outer instance alive", ev.dead = 1)
  ELSE IF ev.op = "copy" THEN {}
  ELSE IF ev.exc # "" THEN {"the class can be accessed and instantiated"}
  ELSE LET t == Reached(st, ev)  m == MroOf(st.prog, st.inst, t) IN
    Clause("the classes in the method resolution order are those reached through the same outer instance",
           Len(ev.mro) = Len(m) /\ Fits(Pairs(m, ev.mro), {}))
    \cup Clause("one class per inner class and outer instance, the same one every time", Fits(st.seen, SeenBy(st, ev)))
    \cup Clause("the bound class has the name, documentation and annotations of the class as written", \A k \in DOMAIN ev.look : ev.look[k] = 1)
    \cup Clause("repr of an instance of a bound class names the outer instance, unless the class has a repr of its own",
                 (ev.op = "make" /\ st.prog[t[2]].kind = "bound" /\ ev.calls = Calls(Chain(st.prog, st.inst, m, 1, 0))) => IF ev.own = 0 THEN ev.repr = "bound"
                 ELSE ev.repr = "custom" \/ (ev.repr = "bound" /\ Cardinality({k \in DOMAIN m : m[k][1] # 0}) > 1))
    \cup (IF ev.op \in {"make", "new"}
          THEN LET ch == Chain(st.prog, st.inst, m, 1, 0) IN Clause("each __init__ gets the outer instance, once, and the caller's arguments", ev.calls = Calls(ch))
          ELSE {})
    \cup (IF ev.op = "child"
          THEN LET ch == Chain(st.prog, st.inst, m, 1, 0) IN
               Clause("a class derived from the bound class passes the outer instance on too", ev.calls = Calls(ch))
          ELSE {})
BAfter(st, ev) ==
  IF ev.op = "del" THEN st
  ELSE IF ev.op = "copy" THEN [st EXCEPT !.inst = Append(@, Reached(st, ev))]
  ELSE [st EXCEPT !.seen = @ \cup SeenBy(st, ev), !.inst = IF ev.op \in {"new", "make"} THEN Append(@, Reached(st, ev)) ELSE @]
=============================================================================
