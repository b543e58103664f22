---------------------------- MODULE StateManager ----------------------------
(* big.state.StateManager (property C05) with accessor and dispatch (C06). *)
(* States are numbered 1..; 0 stands for None.  A history is a flat list   *)
(* of events: the environment's (calls "new"/"assign", edits of the        *)
(* observer list, "ret" / "raise" = the callback of the innermost call     *)
(* returns / raises ev.exc) and the system's ("cb" = a                     *)
(* callback is invoked, "end" = a call returns or raises).                 *)
(* st.fr is the stack of calls in progress, innermost first:               *)
(*   [s, ph, q, rej, new]: s - the state to move to; ph - what comes next  *)
(*   ("exit", "obs", "commit", "enter", "end"); q - observers yet to call; *)
(*   rej - the exceptions one of which the call must raise at once;        *)
(*   new - whether the call is the constructor.                            *)
EXTENDS Outcome, FiniteSets, TLC
\* cfg: [exit, enter, wrong]: sets (as sequences) of the states with an effective on_exit / on_enter, of the wrong class
Has(seq, s) == \E i \in DOMAIN seq : seq[i] = s
SInit0(h) == [cfg |-> h, cur |-> 0, next |-> 0, obs |-> <<>>, fr |-> <<>>, env |-> TRUE, made |-> FALSE]
Top(st) == st.fr[1]
\* the calls' possible rejections; {} if the call is accepted
Rejections(st, s) == (IF s = 0 THEN {"ValueError"} ELSE {})
                \cup (IF st.cfg.typed = 1 /\ (s = 0 \/ Has(st.cfg.wrong, s)) THEN {"TypeError"} ELSE {})
                \cup (IF st.next # 0 \/ (s # 0 /\ s = st.cur) THEN {"TransitionError"} ELSE {})
\* skip the phases in which nothing is to be called, up to the next visible event
RECURSIVE Settle(_)
Settle(st) ==
  IF st.fr = <<>> \/ st.env THEN st ELSE
  LET f == Top(st) IN
  CASE f.ph = "exit" /\ ~Has(st.cfg.exit, st.cur) -> Settle([st EXCEPT !.fr[1].ph = "snap"])
    [] f.ph = "snap" -> Settle([st EXCEPT !.fr[1].ph = "obs", !.fr[1].q = st.obs])
    [] f.ph = "obs" /\ f.q = <<>> -> Settle([st EXCEPT !.fr[1].ph = "enter", !.cur = f.s, !.next = 0])
    [] f.ph = "enter" /\ ~Has(st.cfg.enter, f.s) -> [st EXCEPT !.fr[1].ph = "end"]
    [] OTHER -> st
\* the visible event the system must produce next, when st.env is false
Expected(st) ==
  LET f == Top(st) IN
  CASE f.ph = "exit"  -> [op |-> "cb", kind |-> "exit",  who |-> st.cur,   state |-> st.cur, next |-> f.s, arg |-> 1]
    [] f.ph = "obs"   -> [op |-> "cb", kind |-> "obs",   who |-> f.q[1],   state |-> st.cur, next |-> f.s, arg |-> 1]
    [] f.ph = "enter" -> [op |-> "cb", kind |-> "enter", who |-> f.s,      state |-> st.cur, next |-> 0,   arg |-> 1]
    [] f.ph = "end"   -> [op |-> "end", exc |-> f.rej, state |-> st.cur, next |-> st.next]
Edits == {"oadd", "odel", "oreplace"}
ObsEdit(obs, ev) ==
  CASE ev.op = "oadd" -> SubSeq(obs, 1, ev.at) \o <<ev.o>> \o SubSeq(obs, ev.at + 1, Len(obs))
    [] ev.op = "odel" -> SubSeq(obs, 1, ev.at - 1) \o SubSeq(obs, ev.at + 1, Len(obs))
    [] ev.op = "oreplace" -> ev.os
SAfter(st, ev) ==
  CASE ev.op \in {"new", "assign"} ->
         LET rej == Rejections(st, ev.s) IN
         IF rej # {} THEN [st EXCEPT !.fr = <<[s |-> ev.s, ph |-> "end", q |-> <<>>, rej |-> rej, new |-> ev.op = "new"]>> \o @, !.env = FALSE]
         ELSE Settle([st EXCEPT !.fr = <<[s |-> ev.s, ph |-> "exit", q |-> <<>>, rej |-> {}, new |-> ev.op = "new"]>> \o @, !.env = FALSE,
                                !.next = ev.s, !.made = TRUE])
    [] ev.op \in Edits -> [st EXCEPT !.obs = ObsEdit(@, ev)]
    [] ev.op = "cb"  -> [st EXCEPT !.env = TRUE]
    [] ev.op = "ret" ->      \* the callback of the innermost call returns
         Settle([st EXCEPT !.env = FALSE,
                   !.fr[1].ph = CASE @ = "exit" -> "snap" [] @ = "obs" -> "obs" [] @ = "enter" -> "end",
                   !.fr[1].q = IF st.fr[1].ph = "obs" THEN Tail(@) ELSE @])
    [] ev.op = "raise" ->    \* the callback raises: so does the call; a transition not yet complete is abandoned
         [st EXCEPT !.env = FALSE, !.fr[1].ph = "end", !.fr[1].rej = {ev.exc},
                    !.next = IF st.fr[1].ph = "enter" THEN @ ELSE 0,
                    !.made = @ /\ ~st.fr[1].new]
    [] ev.op = "end" -> [st EXCEPT !.fr = Tail(@), !.env = TRUE]
    [] OTHER -> st
SClauses(st, ev) ==
  IF ev.op \in {"cb", "end"} THEN
    IF st.env THEN {"a callback runs or a call ends when nothing is due"} ELSE
    LET x == Expected(st) IN
    IF x.op # ev.op THEN {"expected " \o x.op \o (IF x.op = "cb" THEN " " \o x.kind ELSE "") \o ", got " \o ev.op}
    ELSE IF ev.op = "cb" THEN
            Clause("kind of callback", ev.kind = x.kind)
       \cup Clause("which callback", ev.who = x.who)
       \cup Clause("visible state", ev.state = x.state)
       \cup Clause("visible next", ev.next = x.next)
       \cup Clause("argument", ev.arg = x.arg)
    ELSE Clause("exception", IF x.exc = {} THEN ev.exc = "" ELSE ev.exc \in x.exc)
       \cup Clause("visible state", ev.state = x.state)
       \cup Clause("visible next", ev.next = x.next)
  ELSE IF ev.op = "badnew" THEN
       Clause("a state_class that isn't a class (TypeError), or a name that isn't an identifier (ValueError), is rejected",
              ev.exc = (IF ev.kind = "class" THEN "TypeError" ELSE "ValueError"))
       \cup Clause("nothing is called", ev.cbs = 0)
  ELSE IF ev.op \in {"read", "call"} THEN
       \* C06: a read through the accessor, and a dispatched call, see the current state
          Clause("dispatched to the current state", ev.who = st.cur)
     \cup Clause("name, arguments and result", ev.good = 1)
     \cup (IF ev.op = "read" THEN Clause("the decorated method keeps its name, documentation and signature", \A k \in DOMAIN ev.meta : ev.meta[k] = 1) ELSE {})
  ELSE Clause("environment event out of turn", st.env)
=============================================================================
