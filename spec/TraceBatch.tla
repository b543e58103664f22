----------------------------- MODULE TraceBatch -----------------------------
(* Validates recorded histories of the real code against a specification   *)
(* given as Init0(header), Clauses(st, ev) (names of the clauses violated  *)
(* by event ev in state st) and After(st, ev).                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Init0(_), Clauses(_, _), After(_, _)
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, st
tvars == <<tr, l, st>>
\* the state itself is a function of (tr, l): fingerprint only those
TView == <<tr, l>>
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ st = Init0(Traces[tr].h)
TraceNext ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET ev == Traces[tr].ev[l]
         v  == Clauses(st, ev)
     IN IF v = {}
        THEN st' = After(st, ev) /\ l' = l + 1 /\ UNCHANGED tr
        ELSE PrintT(ToJson(<<"BAD", tr, l, v>>)) /\ FALSE
=============================================================================
