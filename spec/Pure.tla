-------------------------------- MODULE Pure --------------------------------
(* Independent uses of the library (C37).  A task is one use: a call of a   *)
(* function, an iterator stepped to its end, or an object worked with.      *)
(* Its steps have outcomes; alone[k] is the sequence of the outcomes of     *)
(* task k in a process where nothing else is under way.  A history          *)
(* interleaves the steps of several tasks:                                  *)
(*   step: task k makes a step, with outcome out                            *)
(*   end:  task k is over; before and after describe what it was given      *)
(* The state is how far each task has come: nothing else is shared.         *)
EXTENDS Outcome
UInit0(h) == [alone |-> h.alone, pos |-> [k \in DOMAIN h.alone |-> 0]]
UClauses(st, ev) ==
  IF ev.op = "step"
  THEN Clause("a step has the outcome it has when nothing else is under way",
              st.pos[ev.k] < Len(st.alone[ev.k]) /\ ev.out = st.alone[ev.k][st.pos[ev.k] + 1])
  ELSE Clause("a task has as many steps as when nothing else is under way", st.pos[ev.k] = Len(st.alone[ev.k]))
       \cup Clause("the arguments are as they were", ev.before = ev.after)
UAfter(st, ev) == IF ev.op = "step" THEN [st EXCEPT !.pos[ev.k] = @ + 1] ELSE st
=============================================================================
