---------------------------- MODULE SchedulerLock ----------------------------
(* Design of Scheduler + ThreadSafeRegulator at the granularity of its     *)
(* lock and wake-up event (property C02): consumers run _next(), producers *)
(* each schedule or cancel one event.  Variant: how wake() works.          *)
(*   "swap"     : replace the event object by a new one, set the old one;  *)
(*                sleep is bound to the event object under the lock        *)
(*   "setclear" : set the one event object, then clear it                  *)
(*   "late"     : swap, but sleep is fetched after the lock was released   *)
EXTENDS Integers, FiniteSets
CONSTANTS Consumers, Producers, Variant, MaxT
VARIABLES pc, lock, pend, now, evt, isset, mine, dl, job, got
vars == <<pc, lock, pend, now, evt, isset, mine, dl, job, got>>
\* events are their times; job[p] > 0 schedules an event at that time, < 0 cancels it
First == CHOOSE t \in pend : \A u \in pend : t <= u
Free == lock = 0
Init == /\ pc = [c \in Consumers \cup Producers |-> "start"]
        /\ lock = 0 /\ now = 0 /\ evt = 1 /\ isset = {}
        /\ mine = [c \in Consumers |-> 0] /\ dl = [c \in Consumers |-> 0]
        /\ got = [c \in Consumers |-> 0]
        /\ pend \in {S \in SUBSET (1..MaxT) : S # {}}
        /\ job \in [Producers -> {j \in -MaxT..MaxT : j # 0}]
        /\ \A p, q \in Producers : p # q => job[p] # job[q]
Acquire(c) == pc[c] = "start" /\ Free /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "locked"]
              /\ UNCHANGED <<pend, now, evt, isset, mine, dl, job, got>>
\* a consumer inside the lock
Decide(c) ==
  /\ c \in Consumers /\ pc[c] = "locked" /\ lock' = 0
  /\ IF pend = {} THEN pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED <<pend, mine, dl, got>>
     ELSE IF First <= now
          THEN pc' = [pc EXCEPT ![c] = "done"] /\ got' = [got EXCEPT ![c] = First] /\ pend' = pend \ {First} /\ UNCHANGED <<mine, dl>>
          ELSE pc' = [pc EXCEPT ![c] = "tosleep"] /\ mine' = [mine EXCEPT ![c] = evt]
               /\ dl' = [dl EXCEPT ![c] = First] /\ UNCHANGED <<pend, got>>
  /\ UNCHANGED <<now, evt, isset, job>>
\* entering the sleep: returns at once if the event is set
Sleep(c) ==
  /\ pc[c] = "tosleep"
  /\ LET e == IF Variant = "late" THEN evt ELSE mine[c] IN
     /\ mine' = [mine EXCEPT ![c] = e]
     /\ pc' = [pc EXCEPT ![c] = IF e \in isset THEN "start" ELSE "asleep"]
  /\ UNCHANGED <<lock, pend, now, evt, isset, dl, job, got>>
Timeout(c) == pc[c] = "asleep" /\ dl[c] <= now /\ pc' = [pc EXCEPT ![c] = "start"]
              /\ UNCHANGED <<lock, pend, now, evt, isset, mine, dl, job, got>>
\* a producer inside the lock changes the heap, then calls wake()
Change(p) == /\ p \in Producers /\ pc[p] = "locked" /\ pc' = [pc EXCEPT ![p] = "wake"]
             /\ pend' = IF job[p] > 0 THEN pend \cup {job[p]} ELSE pend \ {-job[p]}
             /\ UNCHANGED <<lock, now, evt, isset, mine, dl, job, got>>
\* wake() is two steps: the second one clears ("setclear") and releases the lock
WakeA(p) == /\ pc[p] = "wake"
            /\ LET e == evt IN
               /\ isset' = isset \cup {e}
               /\ pc' = [q \in DOMAIN pc |-> IF q = p THEN "woke"
                           ELSE IF q \in Consumers /\ pc[q] = "asleep" /\ mine[q] = e THEN "start" ELSE pc[q]]
               /\ evt' = IF Variant = "setclear" THEN evt ELSE evt + 1
            /\ UNCHANGED <<lock, pend, now, mine, dl, job, got>>
WakeB(p) == /\ pc[p] = "woke" /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "done"]
            /\ isset' = IF Variant = "setclear" THEN isset \ {evt} ELSE isset
            /\ UNCHANGED <<pend, now, evt, mine, dl, job, got>>
\* time passes only when every consumer sleeps or is done, as in the harness;
\* producers may start at any time, so they do not hold the clock
Tick == /\ \A c \in Consumers : pc[c] \in {"asleep", "done"} /\ (pc[c] = "asleep" => dl[c] > now)
        /\ \A p \in Producers : pc[p] \in {"start", "done"}
        /\ lock = 0 /\ now < MaxT /\ now' = now + 1
        /\ UNCHANGED <<pc, lock, pend, evt, isset, mine, dl, job, got>>
Next == \/ \E c \in Consumers \cup Producers : Acquire(c)
        \/ \E c \in Consumers : Decide(c) \/ Sleep(c) \/ Timeout(c)
        \/ \E p \in Producers : Change(p) \/ WakeA(p) \/ WakeB(p)
        \/ Tick
Quiescent == /\ \A c \in Consumers : (pc[c] = "done" \/ (pc[c] = "asleep" /\ dl[c] > now))
             /\ \A p \in Producers : pc[p] \in {"start", "done"}
             /\ lock = 0
\* what C02 promises
NoLostWakeup == Quiescent => \A c \in Consumers : pc[c] = "asleep" => pend # {} /\ dl[c] <= First
OneThreadEach == \A c, d \in Consumers : c # d /\ got[c] # 0 => (got[c] # got[d] \/ \E p \in Producers : job[p] = got[c])
NeverEarly == \A c \in Consumers : got[c] <= now
=============================================================================
