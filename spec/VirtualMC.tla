----------------------------- MODULE VirtualMC -----------------------------
(* All programs of three classes, with the laws of pure virtual methods.    *)
EXTENDS Virtual, Json
CONSTANT NClasses
VARIABLE prog
Kinds == {"none", "pure", "conc", "super", "both"}
Orders(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S} 
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
BasesFor(n) == {s \in Orders(1..(n - 1)) : Distinct(s)}
Extend(ps, n) == {Append(p, [bases |-> b, m |-> k]) : p \in ps, b \in BasesFor(n), k \in Kinds}
Linear(p) == \A c \in DOMAIN p : HasMro(VMro(p, c))
Programs == IF NClasses = 3 THEN {p \in Extend(Extend(Extend({<<>>}, 1), 2), 3) : Linear(p)} ELSE {}
Init == prog \in Programs
Next == FALSE /\ UNCHANGED prog
Show == PrintT(ToJson([p |-> prog]))
\* laws: a class all of whose methods are pure never runs a body; a class that overrides with a plain method never raises;
\* the outcome on an instance is the one of the first class on the linearization that has the method
Laws == \A c \in DOMAIN prog :
  LET m == VMro(prog, c)  r == VRun(prog, m, 1)
      have == {k \in DOMAIN m : prog[m[k][2]].m # "none"} IN
  /\ (\A k \in have : prog[m[k][2]].m \in VPure) => r.ran = <<>>
  /\ prog[c].m = "conc" => r = [ran |-> <<c>>, end |-> "ok"]
  /\ prog[c].m \in VPure => r = [ran |-> <<>>, end |-> "NotImplementedError"]
  /\ have = {} => r.end = "AttributeError"
  /\ \A i \in DOMAIN r.ran : prog[r.ran[i]].m \in {"conc", "super"}
=============================================================================
