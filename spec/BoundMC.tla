------------------------------ MODULE BoundMC ------------------------------
(* All small programs: an outer class 1, a subclass 3 of it, a mixin 2, and *)
(* inner classes 4.. of 1 (or 3).  Each program is checked for what the     *)
(* property promises, and printed to be run for real.                       *)
EXTENDS Bound, Json
CONSTANT Big
VARIABLES prog, done
Cl(name, cont, bases, kind, init) == [name |-> name, cont |-> cont, bases |-> bases, kind |-> kind, init |-> init, byhand |-> 0]
Fixed == <<Cl(1, 0, <<>>, "plain", 0), Cl(2, 0, <<>>, "plain", 1), Cl(3, 0, <<1>>, "plain", 0)>>
As == {Cl(4, 1, b, "bound", 1) : b \in {<<>>, <<2>>}}
Bs == {Cl(5, ct, b, k, n) : ct \in {1, 3}, b \in {<<>>, <<4>>, <<4, 2>>, <<2, 4>>}, k \in {"bound", "unbound"}, n \in {0, 1}}
Cs == {Cl(6, ct, b, k, n) : ct \in {1, 3}, b \in {<<4>>, <<5>>, <<5, 4>>, <<5, 2>>, <<2, 5>>}, k \in {"bound", "unbound"}, n \in {0, 1}}
      \* the subclass redefines the inner class under the same name
      \cup {[Cl(nm, 3, <<nm>>, k, 1) EXCEPT !.byhand = IF k = "bound" THEN 1 ELSE 0] : nm \in {4, 5}, k \in {"bound"}}
      \cup {Cl(nm, 3, <<>>, "bound", 1) : nm \in {4, 5}}
Ds == {Cl(7, 1, <<5, 6>>, "bound", 1), Cl(7, 3, <<6>>, "bound", 1), Cl(7, 4, <<>>, "bound", 1), Cl(7, 4, <<2>>, "unbound", 1), Cl(7, 3, <<5, 4>>, "unbound", 0),
       Cl(7, 3, <<6, 2>>, "bound", 0), Cl(7, 6, <<>>, "bound", 1), Cl(7, 1, <<6>>, "unbound", 1)}
Names(p) == \A a, b \in DOMAIN p : (a # b /\ p[a].cont = p[b].cont) => p[a].name # p[b].name
\* bases must be known where the class is written
Known(p) == \A c \in DOMAIN p : \A k \in DOMAIN p[c].bases : LET b == p[c].bases[k] IN
              p[b].cont = 0 \/ p[b].cont = p[c].cont \/ (p[c].cont = 3 /\ p[b].cont = 1)
\* rule: a class with a decorated ancestor is decorated
Ancestors(p, c) == {MroOf(p, <<>>, <<0, c>>)[k][2] : k \in 2..Len(MroOf(p, <<>>, <<0, c>>))}
Legal(p) == Names(p) /\ Known(p) /\ (\A c \in DOMAIN p : HasMro(MroOf(p, <<>>, <<0, c>>)))
            /\ (\A c \in DOMAIN p : TakesOuter(p, c) => LET m == MroOf(p, <<>>, <<0, c>>)  d == FirstInit(p, <<>>, m, 1) IN d # 0 /\ TakesOuter(p, m[d][2]))
Init == done = 0 /\ prog \in {Fixed \o <<a, b>> \o c \o d : a \in As, b \in Bs, c \in {<<x>> : x \in Cs} \cup {<<>>}, d \in IF Big THEN {<<>>} ELSE {<<>>}}
Grow == /\ done = 0 /\ Len(prog) = 6 /\ Legal(prog)
        /\ \E d \in Ds : prog' = Append(prog, d)
        /\ done' = 0
Emit == /\ done = 0 /\ Legal(prog) /\ done' = 1 /\ UNCHANGED prog /\ PrintT(ToJson([prog |-> prog]))
Next == Grow \/ Emit
Insts == <<<<0, 1>>, <<0, 3>>>>
Inner(p) == {c \in DOMAIN p : p[c].cont \in {1, 3} /\ p[c].kind # "plain"}
Reach(p, i) == {c \in Inner(p) : Lookup(p, Insts, i, p[c].name) = c}
Promised == (Legal(prog)) => \A i \in {1, 2} : \A c \in Reach(prog, i) :
              /\ SubclassOfUnbound(prog, Insts, <<i, c>>)
              /\ prog[c].kind = "bound" => OncePerInit(prog, Insts, <<i, c>>)
=============================================================================
