--------------------------- MODULE SchedulerConc ---------------------------
(* Scheduler with a ThreadSafeRegulator (property C02): every call takes   *)
(* effect atomically at some moment between its call and its return.       *)
(* TLC looks for such moments (linearization points) for each recorded     *)
(* history: "call"/"ret" of threads, and "quiet":                          *)
(* every thread is blocked and the clock is about to jump to ev.t, the     *)
(* earliest moment at which one of the blocked threads will wake up.       *)
EXTENDS Outcome, TLC, FiniteSets, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, now, n, pend, th
cvars == <<tr, l, now, n, pend, th>>
Before(a, b) == \/ a.t < b.t
                \/ a.t = b.t /\ a.p < b.p
                \/ a.t = b.t /\ a.p = b.p /\ a.s < b.s
First(P) == CHOOSE a \in P : \A b \in P : a = b \/ Before(a, b)
RECURSIVE Sorted(_)
Sorted(P) == IF P = {} THEN <<>> ELSE LET a == First(P) IN <<a.k>> \o Sorted(P \ {a})
Idle == [s |-> "idle"]
CInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ now = 0 /\ n = 0 /\ pend = {}
         /\ th = [i \in 1..Traces[tr].h.n |-> Idle]
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Due == {a \in pend : a.t <= now}
Fin(i, o) == th' = [th EXCEPT ![i] = [s |-> "lin", o |-> o]]
\* the call of thread i takes effect
Lin(i) ==
  /\ th[i].s = "call"
  /\ LET e == th[i].e IN
     CASE e.op = "sched" ->
            /\ pend' = pend \cup {[k |-> e.k, t |-> IF e.abs THEN e.t ELSE now + e.t, p |-> e.p, s |-> n]}
            /\ n' = n + 1 /\ Fin(i, None)
       [] e.op = "cancel" ->
            /\ IF \E a \in pend : a.k = e.k THEN Fin(i, None) ELSE Fin(i, Raise("ValueError"))
            /\ pend' = {a \in pend : a.k # e.k} /\ n' = n
       [] e.op = "next" ->
            /\ n' = n
            /\ \/ pend = {} /\ pend' = {} /\ Fin(i, Raise("StopIteration"))
               \/ Due # {} /\ pend' = pend \ {First(pend)} /\ Fin(i, Ok("obj", First(pend).k))
       [] e.op = "nb" ->
            /\ n' = n
            /\ \/ Due = {} /\ pend' = pend /\ Fin(i, Raise("StopIteration"))
               \/ Due # {} /\ pend' = pend \ {First(pend)} /\ Fin(i, Ok("obj", First(pend).k))
       [] e.op = "queue" -> n' = n /\ pend' = pend /\ Fin(i, Ok("ids", Sorted(pend)))
       [] e.op = "bool"  -> n' = n /\ pend' = pend /\ Fin(i, Bool(pend # {}))
  /\ UNCHANGED <<tr, l, now>>
Call == Ev.e = "call" /\ th' = [th EXCEPT ![Ev.th] = [s |-> "call", e |-> Ev]] /\ UNCHANGED <<now, n, pend>>
Ret  == Ev.e = "ret" /\ th[Ev.th].s = "lin" /\ Same(Ev.o, th[Ev.th].o)
        /\ th' = [th EXCEPT ![Ev.th] = Idle] /\ UNCHANGED <<now, n, pend>>
\* every thread is blocked: only blocking next() calls may be under way, and
\* then an event is pending, none is due, and none falls due before Ev.t
Quiet == /\ Ev.e = "quiet" /\ now' = Ev.t /\ UNCHANGED <<n, pend, th>>
         /\ \A i \in DOMAIN th : th[i].s = "idle" \/ (th[i].s = "call" /\ th[i].e.op = "next")
         /\ (\E i \in DOMAIN th : th[i].s = "call") => pend # {} /\ Due = {} /\ Ev.t <= First(pend).t
\* calls may as well take effect as late as possible
CNext == /\ More
         /\ \/ (Call \/ Ret \/ Quiet) /\ l' = l + 1 /\ UNCHANGED tr
            \/ Ev.e # "call" /\ \E i \in DOMAIN th : Lin(i)
Accepted == More \/ PrintT(ToJson(<<"ACC", tr>>))
=============================================================================
