------------------------------ MODULE FilesMC ------------------------------
(* All histories on a two-level tree (Mode "tree"), or of nested pushd      *)
(* blocks on a fixed tree (Mode "pushd").                                   *)
EXTENDS Files, Json
CONSTANTS Mode, MaxDepth
VARIABLES st, ev
Names == {"a", "b"}
Ps == {<<x>> : x \in Names} \cup {<<x, y>> : x \in Names, y \in Names}
Fixed == (<<"a">> :> FDirNode) @@ (<<"a", "a">> :> FDirNode) @@ (<<"b">> :> FDirNode) @@ (<<"a", "b">> :> FFileNode(1))
         @@ (<<"b", "b">> :> FLinkNode(<<"a", "a">>))
Calls ==
  IF Mode = "tree"
  THEN {[op |-> o, p |-> p] : o \in FHelpers, p \in Ps \cup {<<>>}}
       \cup {[op |-> "write", p |-> p] : p \in Ps} \cup {[op |-> "rm", p |-> p] : p \in {<<"a">>, <<"b">>}}
       \cup {[op |-> "rmdir", p |-> p] : p \in {<<"a">>, <<"b">>}}
       \cup {[op |-> "link", p |-> <<"b">>, t |-> t] : t \in {<<"a">>, <<"a", "a">>, <<"c">>}}
       \cup {[op |-> "link", p |-> <<"a", "b">>, t |-> t] : t \in {<<"b">>, <<"a">>}}
  ELSE (IF Len(st.stack) < MaxDepth THEN {[op |-> "enter", p |-> p] : p \in Ps \cup {<<>>}} ELSE {})
       \cup {[op |-> "chdir", p |-> p] : p \in {<<>>} \cup {<<"a">>, <<"a", "a">>, <<"b">>, <<"b", "b">>}}
       \cup (IF st.stack # <<>> THEN {[op |-> "leave", how |-> h] : h \in {"normal", "raise"}} ELSE {})
Init == st = (IF Mode = "tree" THEN FInit ELSE [FInit EXCEPT !.fs = Fixed]) /\ ev = [op |-> "init"]
Next == \E e \in Calls :
  /\ ev' = e
  /\ CASE e.op \in FHelpers -> \E r \in FHelper(e.op, st.fs, e.p) : st' = [st EXCEPT !.fs = r.fs]
       [] e.op \in FEnvOps -> FEnvOk(st, e) /\ st' = FEnv(st, e)
       [] e.op = "enter" -> st' = IF FIsDir(st.fs, e.p) THEN FEnter(st, e.p) ELSE st
       [] e.op = "leave" -> st' = FLeave(st)
Flat(s) == [fs |-> {[p |-> p, n |-> s.fs[p]] : p \in DOMAIN s.fs}, cwd |-> s.cwd, stack |-> s.stack]
Edge == PrintT(ToJson([s |-> Flat(st), e |-> ev', t |-> Flat(st')]))
View == Flat(st)
(* what is promised, of every step *)
Post == LET e == ev' fs == st.fs fs2 == st'.fs IN
  /\ e.op = "mkdir" => \A r \in FMkdir(fs, e.p) :
        /\ r.ok => FIsDir(r.fs, e.p)
        /\ FIsDir(fs, e.p) => r.fs = fs
        /\ \A q \in DOMAIN fs : q \in DOMAIN r.fs /\ (fs[q] # r.fs[q] => q = FLoc(fs, e.p) /\ fs[q].k # "dir")
        /\ \A q \in DOMAIN r.fs \ DOMAIN fs : r.fs[q].k = "dir"
  /\ e.op = "unlink" => \A r \in FUnlink(fs, e.p) :
        /\ r.ok /\ ~FIsFile(r.fs, e.p)
        /\ \A q \in DOMAIN fs : (q \in DOMAIN r.fs /\ r.fs[q] = fs[q]) \/ (q = FLoc(fs, e.p) /\ fs[q].k # "dir")
  /\ e.op = "touch" => \A r \in FTouch(fs, e.p) :
        /\ r.ok => FRes(r.fs, e.p).s = "ok" /\ FRes(r.fs, e.p).p \in r.cur
        /\ \A q \in DOMAIN fs : q \in DOMAIN r.fs /\ r.fs[q] = fs[q]
  /\ e.op = "leave" => st'.cwd = st.stack[Len(st.stack)]
Keeps == [][Post]_<<st, ev>>
\* the tree is always a tree
Tree == \A p \in DOMAIN st.fs : FKind(st.fs, FFront(p)) = "dir"
=============================================================================
