------------------------------ MODULE Virtual ------------------------------
(* Pure virtual methods (C38).  A program is a sequence of classes          *)
(*   [bases, m]                                                             *)
(* m: "none" (does not define the method), "pure" (decorated with           *)
(* pure_virtual()), "conc" (a method) or "super" (a method that calls       *)
(* super()'s and passes its result on), "both" (a pure method whose body    *)
(* would call super()'s).  Methods are found along the class's C3           *)
(* linearization; a pure virtual one never runs its body.                   *)
EXTENDS Bound
VMro(p, c) == LET RECURSIVE M(_)
                  M(x) == <<<<0, x>>>> \o C3Merge([k \in DOMAIN p[x].bases |-> M(p[x].bases[k])] \o <<[k \in DOMAIN p[x].bases |-> <<0, p[x].bases[k]>>]>>)
              IN M(c)
VPure == {"pure", "both"}
\* what a call that looks the method up from position k of the linearization does: the classes whose
\* bodies run, and how it ends
RECURSIVE VRun(_, _, _)
VRun(p, m, k) ==
  IF k > Len(m) THEN [ran |-> <<>>, end |-> "AttributeError"]
  ELSE LET c == m[k][2] IN
       CASE p[c].m = "none" -> VRun(p, m, k + 1)
         [] p[c].m \in VPure -> [ran |-> <<>>, end |-> "NotImplementedError"]
         [] p[c].m = "conc" -> [ran |-> <<c>>, end |-> "ok"]
         [] p[c].m = "super" -> LET r == VRun(p, m, k + 1) IN [ran |-> <<c>> \o r.ran, end |-> r.end]
VPos(m, c) == CHOOSE k \in DOMAIN m : m[k][2] = c
\* how the method is reached: on an instance of c ("inst"), as c's attribute, with an instance of d
\* passed by hand ("class"), or through super(c, instance of d) ("super")
VCall(p, e) ==
  CASE e.how = "inst" -> VRun(p, VMro(p, e.c), 1)
    [] e.how = "class" -> LET m == VMro(p, e.c)
                              def == SelectSeq(m, LAMBDA t : p[t[2]].m # "none")
                          IN \* c's own linearization finds the method; calls of super() inside follow d's
                             IF def = <<>> THEN [ran |-> <<>>, end |-> "AttributeError"]
                             ELSE LET md == VMro(p, e.d) IN VRun(p, md, VPos(md, def[1][2]))
    [] e.how = "super" -> LET md == VMro(p, e.d) IN VRun(p, md, VPos(md, e.c) + 1)
VVerdict(c) ==
  IF c.fn = "meta" THEN
    Clause("a pure virtual method keeps its name", c.o.ok = 1 /\ c.o.t = "meta" /\ c.o.v.name = c.want.name)
    \cup Clause("a pure virtual method keeps its documentation", c.o.ok = 1 /\ c.o.t = "meta" /\ c.o.v.doc = c.want.doc)
    \cup Clause("a pure virtual method keeps its signature", c.o.ok = 1 /\ c.o.t = "meta" /\ c.o.v.sig = c.want.sig)
  ELSE LET r == VCall(c.p, c) IN
    Clause("the body of a pure virtual method never runs, and the right methods do", c.ran = r.ran)
    \cup Clause("a pure virtual method raises NotImplementedError, others do not",
                IF r.end = "ok" THEN c.o.ok = 1 /\ c.o.t = "str" ELSE c.o.ok = 0 /\ c.o.exc = r.end)
    \cup (IF r.end = "ok" /\ c.o.ok = 1 /\ c.o.t = "str" THEN Clause("an override gets the arguments and its result is returned", c.o.v = c.args) ELSE {})
=============================================================================
