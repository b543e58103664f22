----------------------------- MODULE NumbersMC -----------------------------
(* Every object with conversion methods, enumerated; the laws that relate   *)
(* the helpers.                                                             *)
EXTENDS Numbers, Json
VARIABLE obj
Fails == {"TypeError", "ValueError", "OverflowError", "wrong"}
Init == obj \in [mi : {"absent", "ok"} \cup Fails, mf : {"absent", "ok", "integral", "inf"} \cup Fails, mx : {"absent", "ok"} \cup Fails]
Next == FALSE /\ UNCHANGED obj
Show == PrintT(ToJson(obj))
v == NObject(obj)
Laws == /\ (NResult("try_int", v, 0).text = "True") = (NResult("get_int", v, 1).is # "d")
        /\ (NResult("try_float", v, 0).text = "True") = (NResult("get_float", v, 1).is # "d")
        /\ NResult("get_int_or_float", v, 1).is = "d" => NResult("get_int", v, 1).is = "d" /\ NResult("get_float", v, 1).is = "d"
        /\ \A fn \in {"get_int", "get_float", "get_int_or_float"} : NResult(fn, v, 1).is = "d" <=> NResult(fn, v, 0).is = "o"
=============================================================================
