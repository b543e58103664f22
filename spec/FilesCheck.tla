---------------------------- MODULE FilesCheck ----------------------------
(* Histories recorded from the real code.  After every event: the whole    *)
(* tree (fs), the nodes whose modification time is no longer the one set   *)
(* before the event (m: [p, "cur"] or [p, "other"]), the working directory.*)
EXTENDS Files, Outcome
FOf(l) == [q \in {l[i].p : i \in DOMAIN l} |-> LET i == CHOOSE i \in DOMAIN l : l[i].p = q IN [k |-> l[i].k, c |-> l[i].c, t |-> l[i].t]]
FRInit0(h) == [FInit EXCEPT !.fs = FOf(h.fs), !.cwd = h.cwd]
FMs(e) == {e.m[i] : i \in DOMAIN e.m}
\* modification times: exactly the touched, the new, and the directories with a changed entry are current
FTimes(fs, e, cur) ==
  LET fs2 == FOf(e.fs)
      new == DOMAIN fs2 \ DOMAIN fs
      changed == new \cup (DOMAIN fs \ DOMAIN fs2) \cup {q \in DOMAIN fs2 \cap DOMAIN fs : fs[q] # fs2[q]}
      may == changed \cup {FFront(q) : q \in changed \ {<<>>}} \cup cur
  IN /\ \A q \in cur : <<q, "cur">> \in FMs(e)
     /\ \A m \in FMs(e) : m[1] \in may /\ m[2] = "cur"
FHelperClauses(st, e) ==
  LET rs == FHelper(e.op, st.fs, e.p)
      fit == {r \in rs : r.ok = (e.o.ok = 1) /\ r.fs = FOf(e.fs)}
  IN Clause("returned_or_raised", \E r \in rs : r.ok = (e.o.ok = 1))
     \cup Clause("tree", \E r \in rs : r.fs = FOf(e.fs))
     \cup Clause("together", fit # {})
     \cup Clause("times", fit = {} \/ \E r \in fit : FTimes(st.fs, e, r.cur))
     \cup Clause("cwd", e.cwd = st.cwd \/ ~FAlive(st))
     \cup Clause("permissions_kept", e.lost = 0)
FUntouched(st, e) == Clause("tree", FOf(e.fs) = st.fs) \cup Clause("times", e.m = <<>>)
FEnterClauses(st, e) ==
  FUntouched(st, e) \cup
  (IF FIsDir(st.fs, e.p) THEN Clause("entered", e.o.ok = 1) \cup Clause("cwd_in_block", e.cwd = FRes(st.fs, e.p).p)
   ELSE Clause("not_entered", e.o.ok = 0) \cup Clause("cwd_kept", e.cwd = st.cwd))
FLeaveClauses(st, e) ==
  FUntouched(st, e) \cup Clause("cwd_restored", e.cwd = st.stack[Len(st.stack)])
  \cup Clause("exception_propagates", e.how = "raise" => e.prop = 1)
  \cup Clause("no_exception_added", e.how = "normal" => e.prop = 0)
FStatClauses(st, e) ==
  FUntouched(st, e) \cup Clause("permissions_kept", e.lost = 0) \cup
  (IF FRes(st.fs, e.p).s = "ok"
   THEN Clause("size", FIsDir(st.fs, e.p) \/ Same(e.size, IntV(e.want.sz)))
        \cup Clause("mtime", Same(e.mt, TupleOf("int", <<e.want.s, e.want.f>>)))
        \cup Clause("mtime_ns", Same(e.ns, TupleOf("int", <<e.want.s, e.want.n>>)))
   ELSE Clause("missing_raises", e.size.ok = 0 /\ e.mt.ok = 0 /\ e.ns.ok = 0))
FRClauses(st, e) ==
  CASE e.op \in FHelpers -> FHelperClauses(st, e)
    [] e.op = "enter" -> FEnterClauses(st, e)
    [] e.op = "leave" -> FLeaveClauses(st, e)
    [] e.op = "stat" -> FStatClauses(st, e)
    [] OTHER -> {}
FRAfter(st, e) ==
  CASE e.op = "enter" -> IF e.o.ok = 1 THEN FEnter(st, e.p) ELSE st
    [] e.op = "leave" -> FLeave(st)
    [] OTHER -> [st EXCEPT !.fs = FOf(e.fs), !.cwd = e.cwd]
=============================================================================
