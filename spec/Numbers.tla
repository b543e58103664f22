------------------------------ MODULE Numbers ------------------------------
(* try_int, try_float, get_int, get_float, get_int_or_float (property C34). *)
(* A value is described by what int() and float() make of it:               *)
(*   kind: "int", "float" (or their subclasses) or "other"                  *)
(*   i, f: [ok, exc, cls, text] of int(o), float(o)                         *)
(*   fi:   [ok, text] of the exact integer that float(o) is, if it is one   *)
(* A result is [is, cls, text]: is it the argument ("o"), the default       *)
(* ("d"), or another object ("new") of that class with that text.           *)
EXTENDS Outcome, TLC
\* conversion of an object by its methods, each absent, giving a value, or failing
NAbsent(m) == m = "absent"
NInt(o) == IF ~NAbsent(o.mi) THEN (IF o.mi = "ok" THEN [ok |-> 1, exc |-> "", cls |-> "int", text |-> "7"]
                                   ELSE [ok |-> 0, exc |-> IF o.mi = "wrong" THEN "TypeError" ELSE o.mi, cls |-> "", text |-> ""])
           ELSE IF o.mx = "ok" THEN [ok |-> 1, exc |-> "", cls |-> "int", text |-> "9"]
           ELSE [ok |-> 0, exc |-> IF o.mx \in {"absent", "wrong"} THEN "TypeError" ELSE o.mx, cls |-> "", text |-> ""]
NFloat(o) == IF ~NAbsent(o.mf) THEN (IF o.mf = "ok" THEN [ok |-> 1, exc |-> "", cls |-> "float", text |-> "2.5"]
                                     ELSE IF o.mf = "integral" THEN [ok |-> 1, exc |-> "", cls |-> "float", text |-> "3.0"]
                                     ELSE IF o.mf = "inf" THEN [ok |-> 1, exc |-> "", cls |-> "float", text |-> "inf"]
                                     ELSE [ok |-> 0, exc |-> IF o.mf = "wrong" THEN "TypeError" ELSE o.mf, cls |-> "", text |-> ""])
             ELSE IF o.mx = "ok" THEN [ok |-> 1, exc |-> "", cls |-> "float", text |-> "9.0"]
             ELSE [ok |-> 0, exc |-> IF o.mx \in {"absent", "wrong"} THEN "TypeError" ELSE o.mx, cls |-> "", text |-> ""]
NExact(f) == IF f.text = "3.0" THEN [ok |-> 1, text |-> "3"] ELSE IF f.text = "9.0" THEN [ok |-> 1, text |-> "9"] ELSE [ok |-> 0, text |-> ""]
NObject(o) == [kind |-> "other", i |-> NInt(o), f |-> NFloat(o), fi |-> IF NFloat(o).ok = 1 THEN NExact(NFloat(o)) ELSE [ok |-> 0, text |-> ""]]
\* what the helpers return; def: was a default given
NNew(cls, text) == [is |-> "new", cls |-> cls, text |-> text]
NTheArg == [is |-> "o", cls |-> "", text |-> ""]
NFail(def) == [is |-> IF def = 1 THEN "d" ELSE "o", cls |-> "", text |-> ""]
NResult(fn, v, def) ==
  CASE fn = "try_int" -> NNew("bool", IF v.i.ok = 1 THEN "True" ELSE "False")
    [] fn = "try_float" -> NNew("bool", IF v.f.ok = 1 THEN "True" ELSE "False")
    [] fn = "get_int" -> IF v.i.ok = 1 THEN NNew(v.i.cls, v.i.text) ELSE NFail(def)
    [] fn = "get_float" -> IF v.f.ok = 1 THEN NNew(v.f.cls, v.f.text) ELSE NFail(def)
    [] fn = "get_int_or_float" ->
         IF v.kind = "int" THEN NTheArg
         ELSE IF v.kind = "float" THEN (IF v.fi.ok = 1 THEN NNew("int", v.fi.text) ELSE NTheArg)
         ELSE IF v.i.ok = 1 THEN NNew(v.i.cls, v.i.text)
         ELSE IF v.f.ok = 1 THEN (IF v.fi.ok = 1 THEN NNew("int", v.fi.text) ELSE NNew(v.f.cls, v.f.text))
         ELSE NFail(def)
\* c.r: what was returned: is (set of "o", "d"), cls, text
NFits(r, x, c) == IF x.is = "new" THEN r.cls = x.cls /\ r.text = x.text
                  ELSE IF x.is = "o" THEN r.iso = 1 \/ (r.cls = c.argcls /\ r.text = c.argtext /\ c.v.kind # "other")
                  ELSE r.isd = 1
NVerdict(c) ==
  LET v == IF c.made = 1 THEN NObject(c.obj) ELSE c.v IN
  Clause("stimulus", c.made = 0 \/ (v.i = c.v.i /\ v.f = c.v.f /\ v.fi = c.v.fi))
  \cup (IF c.o.ok = 0 THEN {"never raises"} ELSE Clause("value", NFits(c.o.v, NResult(c.fn, v, c.def), c)))
=============================================================================
