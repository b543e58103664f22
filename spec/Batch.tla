------------------------------- MODULE Batch -------------------------------
(* Judges recorded cases of the real code: one state per case.  Verdict(c) *)
(* is the set of names of the clauses of the specification that case c     *)
(* violates.  Total: every case is judged, and every failure is printed.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Verdict(_)
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Chunk == atoi(IOEnv.CHUNK)
VARIABLE k
BatchInit == k \in {i \in 1..N : (i - 1) % Chunk = 0}
BatchNext == k < N /\ k % Chunk # 0 /\ k' = k + 1
Judged == LET v == Verdict(Cases[k]) IN v = {} \/ PrintT(ToJson(<<"BAD", k, v>>))
=============================================================================
