------------------------------- MODULE Files -------------------------------
(* A small file tree with links, a working directory, and the helpers of   *)
(* big.file on it: safe_mkdir, safe_unlink, touch, pushd, file_size and    *)
(* file_mtime(_ns).                                                        *)
(* A path is a sequence of names from the root <<>>, which is always a     *)
(* directory.  A tree maps the paths that exist to nodes.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
FDirNode     == [k |-> "dir",  c |-> 0, t |-> <<>>]
FFileNode(c) == [k |-> "file", c |-> c, t |-> <<>>]
FLinkNode(t) == [k |-> "link", c |-> 0, t |-> t]
FIsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
FFront(p) == SubSeq(p, 1, Len(p) - 1)
FKind(fs, p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN fs THEN fs[p].k ELSE "none"
FPut(fs, p, n) == (p :> n) @@ fs
FDrop(fs, p) == [q \in DOMAIN fs \ {p} |-> fs[q]]
\* path lookup: every component is followed through links
RECURSIVE FLook(_, _, _, _)
FLook(fs, cur, rest, fuel) ==
  IF fuel = 0 THEN [s |-> "loop", p |-> cur]
  ELSE IF rest = <<>> THEN [s |-> "ok", p |-> cur]
  ELSE LET h == Append(cur, Head(rest)) IN
    IF h \notin DOMAIN fs THEN [s |-> IF Len(rest) = 1 THEN "none" ELSE "noparent", p |-> h]
    ELSE IF fs[h].k = "link" THEN FLook(fs, <<>>, fs[h].t \o Tail(rest), fuel - 1)
    ELSE IF fs[h].k = "dir" \/ Len(rest) = 1 THEN FLook(fs, h, Tail(rest), fuel)
    ELSE [s |-> "notdir", p |-> h]
FRes(fs, p) == FLook(fs, <<>>, p, 12)
\* where the last component of p itself (not followed) is
FLoc(fs, p) == IF p = <<>> THEN <<>> ELSE Append(FRes(fs, FFront(p)).p, p[Len(p)])
FIsDir(fs, p)  == LET r == FRes(fs, p) IN r.s = "ok" /\ FKind(fs, r.p) = "dir"
FIsFile(fs, p) == LET r == FRes(fs, p) IN r.s = "ok" /\ FKind(fs, r.p) = "file"

(* ------------------------------ the helpers ------------------------------ *)
(* Each is the set of allowed results [ok, fs, cur]: does it return, the tree *)
(* afterwards, and the paths whose modification time must then be current.    *)
FDone(fs, cur) == [ok |-> TRUE, fs |-> fs, cur |-> cur]
FFail(fs)      == [ok |-> FALSE, fs |-> fs, cur |-> {}]
\* the longest existing prefix of p
FBase(fs, p) == CHOOSE n \in 0..Len(p) : /\ FRes(fs, SubSeq(p, 1, n)).s = "ok"
                                         /\ \A m \in (n + 1)..Len(p) : FRes(fs, SubSeq(p, 1, m)).s # "ok"
FMkdir(fs, p) ==
  IF FIsDir(fs, p) THEN {FDone(fs, {})}
  ELSE IF FIsFile(fs, p) THEN LET l == FLoc(fs, p) IN {FDone(FPut(FDrop(fs, l), l, FDirNode), {})}
  ELSE LET n  == FBase(fs, p)
           b  == FRes(fs, SubSeq(p, 1, n)).p
           first == Append(b, p[n + 1])
           made == {b \o SubSeq(p, n + 1, m) : m \in (n + 1)..Len(p)}
       IN IF FKind(fs, b) # "dir" \/ first \in DOMAIN fs          \* under a file; a link that leads nowhere
          THEN {FFail(fs)}
          ELSE {FDone([q \in made |-> FDirNode] @@ fs, {})}
FUnlink(fs, p) ==
  IF FIsFile(fs, p) THEN {FDone(FDrop(fs, FLoc(fs, p)), {})}
  ELSE {FDone(fs, {})} \cup
       (IF FRes(fs, p).s # "ok" /\ p # <<>> /\ FIsDir(fs, FFront(p)) /\ FKind(fs, FLoc(fs, p)) = "link"
        THEN {FDone(FDrop(fs, FLoc(fs, p)), {})} ELSE {})          \* (a link that leads nowhere may go or stay)
FTouch(fs, p) ==
  LET r == FRes(fs, p) IN
  IF r.s = "ok" THEN {FDone(fs, {r.p})}
  ELSE IF r.s = "none" THEN {FDone(FPut(fs, r.p, FFileNode(0)), {r.p})}
  ELSE {FFail(fs)}
FHelper(op, fs, p) == CASE op = "mkdir" -> FMkdir(fs, p) [] op = "unlink" -> FUnlink(fs, p) [] op = "touch" -> FTouch(fs, p)
FHelpers == {"mkdir", "unlink", "touch"}

(* ------------------- what the surrounding program does ------------------- *)
FEnvOk(st, e) == LET fs == st.fs IN
  CASE e.op = "write" -> FRes(fs, e.p).s \in {"none", "ok"} /\ ~FIsDir(fs, e.p) /\ FKind(fs, e.p) \in {"none", "file"}
                         /\ FIsDir(fs, FFront(e.p)) /\ FRes(fs, FFront(e.p)).p = FFront(e.p)
    [] e.op = "link" -> FKind(fs, e.p) = "none" /\ FKind(fs, FFront(e.p)) = "dir"
    [] e.op = "rmdir" -> FKind(fs, e.p) = "dir" /\ e.p # <<>> /\ (\A q \in DOMAIN fs : FIsPrefix(e.p, q) => q = e.p)
                         /\ (\A i \in DOMAIN st.stack : st.stack[i] # e.p)
    [] e.op = "rm" -> FKind(fs, e.p) \in {"file", "link"}
    [] e.op = "chdir" -> FIsDir(fs, e.p)
FEnv(st, e) == LET fs == st.fs IN
  CASE e.op = "write" -> [st EXCEPT !.fs = FPut(fs, e.p, FFileNode(1))]
    [] e.op = "link" -> [st EXCEPT !.fs = FPut(fs, e.p, FLinkNode(e.t))]
    [] e.op \in {"rmdir", "rm"} -> [st EXCEPT !.fs = FDrop(fs, e.p)]
    [] e.op = "chdir" -> [st EXCEPT !.cwd = FRes(fs, e.p).p]
FEnvOps == {"write", "link", "rmdir", "rm", "chdir"}
FAlive(st) == FKind(st.fs, st.cwd) = "dir"        \* (the working directory itself may have been removed)

(* -------------------------------- pushd --------------------------------- *)
\* with pushd(d): saves the working directory on entry, restores it on exit
FEnter(st, p) == [st EXCEPT !.cwd = FRes(st.fs, p).p, !.stack = Append(st.stack, st.cwd)]
FLeave(st) == [st EXCEPT !.cwd = st.stack[Len(st.stack)], !.stack = SubSeq(st.stack, 1, Len(st.stack) - 1)]
FInit == [fs |-> <<>>, cwd |-> <<>>, stack |-> <<>>]
=============================================================================
