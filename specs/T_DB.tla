-------------------------------- MODULE T_DB --------------------------------
(* Executions of the discrete Bayes functions and of the resampling         *)
(* functions against Discrete.                                              *)
EXTENDS Discrete, IOUtils
VARIABLES tr, l, st
Rel == Frac(1, 1000000000)
Abs == Frac(1, 1000000000)
Eps == Frac(1, 1000000000)
If(c, name) == IF c THEN {} ELSE {name}
Ret(r, e) == If(Close(r, e.o.ret, Rel, Abs), "return value")

Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev = "belief" -> {}
    [] e.ev = "normalize" -> Ret(Normalize(a.p), e) \cup If(Close(1, Total(e.o.ret), 0, Abs), "sums to 1") \cup
         (IF a.array THEN If(Close(e.o.ret, e.o.arg, 0, 0), "in place") ELSE {})
    [] e.ev = "d.update" -> Ret(DUpdate(a.like, s.p), e) \cup If(Close(1, Total(e.o.ret), 0, Abs), "sums to 1")
    [] e.ev = "d.predict" -> Ret(DPredict(s.p, a.offset, a.kernel, a.wrap, a.cval), e) \cup
         \* what moves on a circle does not get lost
         (IF a.wrap THEN If(Close(RMul(Total(s.p), Total(a.kernel)), Total(e.o.ret), Rel, Abs), "mass") ELSE {})
    [] e.ev = "resample" -> If(ResampleOK(a.alg, a.w, e.o.ret, Eps), "resampled indexes")
    [] e.ev = "resample.total" -> If(RSumSeq(e.o.total) = RMul(Len(a.w), a.runs) \/ REq(RSumSeq(e.o.total), RMul(Len(a.w), a.runs)), "number of indexes")
         \cup If(UnbiasedOK(a.w, e.o.total, a.runs, 7), "unbiased") \cup If(VariesOK(a.w, e.o.seen), "resamplings differ")
         \cup (IF a.alg \in {"residual", "multinomial"} THEN If(AgreeOK(a.alg, a.w, e.o.seen, a.runs, Eps, 7), "independent draws") ELSE {})
         \cup (IF a.alg = "stratified" THEN If(OwnDrawsOK(a.w, e.o.seen, Eps), "independent draws") ELSE {})
    [] e.ev = "owned" -> If(Close(a.before, e.o.after, 0, 0), "caller's array changed")
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) == CASE e.ev = "belief" -> [p |-> e.a.p]
                 [] e.ev \in {"normalize", "d.update", "d.predict"} -> [p |-> e.o.ret]
                 [] OTHER -> s
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
