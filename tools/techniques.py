NA = {}
S2C = "TLC explores the TLA+ spec; its transitions are replayed on, and random histories recorded from, the real code; TLC validates every trace"
TXT = "TLA+ executable specification; TLC judges recorded results of the real code, exhaustive in a small scope plus random larger inputs"
TECH = {}
for _i in "C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C01".split():
    TECH[_i] = (S2C, "Every transition of the spec in a small scope and random longer histories; bounded, assumes the recorded API results show the behaviour.")
for _i in "C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C31 C32 C33 C34 C35 C36".split():
    TECH[_i] = (TXT, "All inputs of a small scope and random larger ones; bounded. The oracle is the executable TLA+ specification.")
TECH["C38"] = ("TLC enumerates all programs of three classes and checks the laws; they are built with the real decorator, called every way, and TLC judges which bodies ran and how each call ended", "All hierarchies of three classes and random larger ones; bounded.")
TECH["C02"] = ("TLC checks the lock-granularity TLA+ design for lost wake-ups; real threads under a controlled scheduler are recorded and TLC decides whether each history is linearizable against the Scheduler spec", "All schedules with a bounded number of pre-emptions of small programs plus random ones; the threading module and the clock are replaced by controlled ones.")
TECH["C13"] = (S2C, "Small class hierarchies and histories; bounded.")
TECH["C37"] = ("TLC enumerates all interleavings of a few tasks (and refutes two leaky designs); they are run with real calls, iterators and objects, and TLC compares every step with what the task does alone", "All interleavings of 2-4 tasks of a few steps, randomly chosen tasks; bounded. What a task does alone is recorded from a separate process.")
TECH["C30"] = (S2C, "All small starting states of a scratch directory; bounded.")
