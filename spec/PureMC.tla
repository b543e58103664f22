------------------------------- MODULE PureMC -------------------------------
(* All interleavings of a few tasks of a few steps, printed to be run for   *)
(* real.  Three implementations of a task: it keeps its position and what   *)
(* it works on to itself; it keeps them in a place all tasks share, set     *)
(* when a task starts; or it looks its answer up in a memory of earlier     *)
(* answers, kept under a key that does not tell tasks Alike from each       *)
(* other.  The last two must be refuted: the interleavings show the         *)
(* difference.                                                              *)
EXTENDS Pure, Json, FiniteSets, TLC
CONSTANTS Tasks, Steps, Impl
Alike(a, b) == Impl = "cached" /\ (a + b) % 2 = 0
Alone == [k \in Tasks |-> [i \in 1..Steps |-> <<k, i>>]]
VARIABLES st, cell, memo, bad, sched
\* cell: <<task, position>> as the shared place has it; memo: the answers remembered, <<task, position>> -> answer
Starts(k) == st.pos[k] = 0
Cell(k) == IF Starts(k) THEN <<k, 0>> ELSE cell
Out(k) ==
  CASE Impl = "private" -> <<k, st.pos[k] + 1>>
    [] Impl = "shared" -> <<Cell(k)[1], Cell(k)[2] + 1>>
    [] Impl = "cached" -> LET hit == {m \in memo : Alike(m[1], k) /\ m[2] = st.pos[k] + 1} IN
                          IF hit = {} THEN <<k, st.pos[k] + 1>> ELSE LET m == CHOOSE m \in hit : TRUE IN <<m[1], m[2]>>
Init == st = UInit0([alone |-> Alone]) /\ cell = <<0, 0>> /\ memo = {} /\ bad = {} /\ sched = <<>>
Next == \E k \in Tasks :
          /\ st.pos[k] < Steps
          /\ LET ev == [op |-> "step", k |-> k, out |-> Out(k)] IN bad' = UClauses(st, ev) /\ st' = UAfter(st, ev)
          /\ cell' = <<Cell(k)[1], Cell(k)[2] + 1>>
          /\ memo' = memo \cup {<<k, st.pos[k] + 1>>}
          /\ sched' = Append(sched, k)
Right == bad = {}
Complete == \A k \in Tasks : st.pos[k] = Steps
Emit == Complete => PrintT(ToJson([sched |-> sched]))
=============================================================================
