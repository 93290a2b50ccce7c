-------------------------------- MODULE T_LF --------------------------------
(* Executions of the EKF, fading, square root, information and H-infinity  *)
(* filters against Filters.                                                *)
EXTENDS Filters, IOUtils
VARIABLES tr, l, st

Rel == Frac(1, 10000000)
Abs == Frac(1, 100000000)
Loose == Frac(1, 1000000)
Bare(s) == [f \in DOMAIN s \ {"lik", "ll", "mah", "noinf"} |-> s[f]]
LikCheck(p, o) ==
  (IF ~Close(p.ll, o.ll, Rel, Rel) THEN {"log_likelihood"} ELSE {}) \cup
  (IF ~LikOK(p.ll, o.lik) THEN {"likelihood"} ELSE {}) \cup
  (IF Has(o, "mah") /\ ~Close(p.mah, o.mah, Rel, Rel) THEN {"mahalanobis"} ELSE {})
Ret(r, e) == IF Close(r, e.o.ret, Rel, Abs) THEN {} ELSE {"return value"}
Same(s, e) == Diff(Bare(s), e.o, 0, 0)

\* singular, as far as doubles can tell
Singular(A) == RLe(RAbs(MDet(A)), RMul(RPow(10, -7), RPow(MMaxAbs(A), Rows(A))))
Hopeless(S) == RLe(RAbs(MDet(S)), RMul(RPow(10, -8), RPow(MMaxAbs(S), Rows(S))))
UpdFail(s, e) ==
  LET p == GUpdate(s, e.a) IN
  IF s.kind = "INFO"
  THEN IF IsNone(e.a.z) THEN Diff(Bare(p), e.o, Rel, Abs)
       ELSE LET reg == ~Singular(p.Pi)
                out == {"y", "K"} \cup (IF reg THEN {} ELSE {"x", "xo"})
                b == [f \in DOMAIN Bare(p) \ out |-> p[f]]
            IN  Diff(b, e.o, Rel, Abs)
                \* undetermined: any solution of the normal equations
                \cup (IF reg THEN {} ELSE
                      LET v == (s.Pi ** s.x) ++ ((MT(s.H) ** Cov(Or(e.a.R, s.Ri), Rows(s.H))) ** e.a.z)
                          big == RMax(1, RMax(MMaxAbs(v), RMul(MMaxAbs(p.Pi), MMaxAbs(e.o.x))))
                      IN  IF Close(v, p.Pi ** e.o.x, Loose, RMul(Loose, big)) THEN {} ELSE {"x"})
                \cup (IF reg /\ ~Singular(s.Pi) /\ ~s.noinf
                      THEN Diff([y |-> InfoY(s, e.a)], e.o, Rel, Abs) \cup
                           (IF e.o.cll THEN LikCheck([ll |-> InfoLL(s, e.a)], e.o) ELSE {})
                      ELSE {})
  ELSE IF s.kind = "EKF" /\ ~IsNone(e.a.z) /\ Hopeless(p.S) THEN Diff([f \in {"xp", "Pp", "S", "H", "y"} |-> p[f]], e.o, Rel, Abs)
  ELSE Diff(Bare(p), e.o, Rel, Abs) \cup
       (IF s.kind \in {"EKF", "FADING"} /\ ~IsNone(e.a.z) THEN LikCheck(p, e.o) ELSE {})

Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev = "new" -> IF a = <<>> THEN {} ELSE Diff(a, e.o, Rel, Abs)
    [] e.ev = "set" -> Diff(Bare([f \in DOMAIN s |-> IF f \in DOMAIN a THEN a[f] ELSE s[f]]), e.o,
                            IF s.kind = "SR" THEN Rel ELSE 0, IF s.kind = "SR" THEN Abs ELSE 0)
    [] e.ev = "copied" -> Same(s, e)
    [] e.ev = "predict" -> Diff(Bare(GPredict(s, a)), e.o, Rel, Abs)
    [] e.ev = "update" -> UpdFail(s, e)
    [] e.ev = "predict_update" ->
         LET p == GPredict(s, a)  q == IF IsNone(a.z) THEN p ELSE EkfUpdate(p, a)
         IN  IF IsNone(a.z) THEN Diff([x |-> q.x, P |-> q.P], e.o, Rel, Abs)
             \* a nonlinear model may have carried the state so far that S cannot be inverted in doubles
             ELSE IF Hopeless(q.S) THEN Diff([f \in {"xp", "Pp", "S", "H", "y"} |-> q[f]], e.o, Rel, Abs)
             ELSE Diff(Bare(q), e.o, Rel, Abs) \cup LikCheck(q, e.o)
    [] e.ev = "get_prediction" -> Same(s, e) \cup
         LET p == GPredict(s, a) IN Ret(IF s.kind = "HINF" THEN p.x ELSE <<p.x, p.P>>, e)
    [] e.ev = "residual_of" -> Same(s, e) \cup Ret(a.z -- (s.H ** s.x), e)
    [] e.ev = "measurement_of_state" -> Same(s, e) \cup Ret(s.H ** a.x, e)
    [] e.ev = "P" -> Same(s, e) \cup Ret(MInv(s.Pi), e)
    [] e.ev = "batch" -> LET b == GBatch(s, a, 1, NoOut) IN
         Diff(Bare(b.s), e.o, Rel, Abs) \cup
         Diff([f \in {"m", "c"} |-> b.out[f]], e.o.ret, Rel, Abs) \cup
         (IF s.kind = "FADING" THEN Diff([f \in {"mp", "cp"} |-> b.out[f]], e.o.ret, Rel, Abs) ELSE {}) \cup
         (IF Has(e.o, "saved") /\ ~Close(IF a.first THEN b.out.mp ELSE b.out.m, e.o.saved, Rel, Abs) THEN {"saver"} ELSE {})
    [] e.ev = "owned" -> IF Close(a.before, e.o.after, 0, 0) THEN {} ELSE {"caller's array changed"}
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
\* noinf: the state was singular when last predicted; the information filter then reports no residual
After(s, e) ==
  IF ~Has(e.o, "x") THEN s
  ELSE LET o == [f \in DOMAIN e.o \ {"ret", "saved", "cll"} |-> e.o[f]]
       IN  IF e.o.kind # "INFO" THEN o
           ELSE [noinf |-> IF e.ev = "predict" THEN Singular(s.Pi) ELSE e.ev # "new" /\ s.noinf] @@ o
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
