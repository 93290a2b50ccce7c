------------------------------- MODULE T_OWN -------------------------------
(* Executions of filters and functions against Own.                         *)
EXTENDS Own, IOUtils
VARIABLES tr, l, st
Report(r) == UNION {{f} \X r[f] : f \in DOMAIN r}
Range(q) == {q[i] : i \in 1..Len(q)}
Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev = "start" -> {}
    [] e.ev = "call" -> Report(AfterCall(s, e.o))
    [] e.ev = "scribble" -> Report(AfterScribble(s, e.o, a.name))
    [] e.ev = "poke" -> Report(AfterPoke(s, e.o, Range(a.names)))
    [] OTHER -> {"unknown event"}
Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
\* what the caller holds grows: new arguments and results come with the observation
After(s, e) == e.o.next
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
