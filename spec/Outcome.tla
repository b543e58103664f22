------------------------------ MODULE Outcome ------------------------------
(* The observable outcome of a call of the real code: a tagged value, or   *)
(* the name of the exception.  Two outcomes are compared tag first, so the *)
(* comparison is total.                                                    *)
EXTENDS Integers, Sequences
Ok(t, v)   == [ok |-> 1, exc |-> "", t |-> t, v |-> v]
Raise(e)   == [ok |-> 0, exc |-> e, t |-> "", v |-> 0]
None       == Ok("none", 0)
IntV(n)     == Ok("int", n)
Bool(b)    == Ok("bool", IF b THEN 1 ELSE 0)
ListOf(elt, s)  == Ok(IF s = <<>> THEN "list<>" ELSE "list<" \o elt \o ">", s)
TupleOf(elt, s) == Ok(IF s = <<>> THEN "tuple<>" ELSE "tuple<" \o elt \o ">", s)
Same(o, r) == o.ok = r.ok /\ o.exc = r.exc /\ o.t = r.t /\ o.v = r.v
Raised(o)  == o.ok = 0
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
