-------------------------------- MODULE T_IN --------------------------------
(* Executions of programs with many filters against World.                  *)
EXTENDS World, IOUtils
VARIABLES tr, l, st
If(c, name) == IF c THEN {} ELSE {name}
\* e.o.w: what every filter of the program shows, in the order of their construction
Fails(s, e) ==
  LET a == e.a
      rest(i) == If(Len(e.o.w) >= Len(s) /\ Others(s, e.o.w, i), "another filter changed")
  IN
  CASE e.ev = "start" -> {}
    [] e.ev = "new" -> {<<"prior", f>> : f \in Diff(Prior(a.kind, a.n, a.m, a.args), e.o.attrs, Frac(1, RPow(10, 12)), 0)} \cup
                       If(e.o.nothing, "a measurement before the first") \cup rest(Len(s) + 1)
    [] e.ev = "step" -> rest(a.i)
    [] e.ev = "refuse" -> If(e.o.raised = ~Valid(a.what, a.args), "accepted or refused wrongly") \cup
                          (IF e.o.raised THEN rest(0) ELSE rest(a.i))
    [] e.ev = "dims" -> If(e.o.raised = ~Fits(a), "model that fits refused, or one that does not accepted") \cup rest(0)
    [] OTHER -> {"unknown event"}
Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) == e.o.w
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
