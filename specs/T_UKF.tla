------------------------------- MODULE T_UKF -------------------------------
(* Executions of the sigma point classes, the unscented transform, the     *)
(* unscented and the cubature Kalman filter against Sigma.                 *)
EXTENDS Sigma, IOUtils
VARIABLES tr, l, st

Rel == Frac(1, 1000000)
Abs == Frac(1, 10000000)
Bare(s) == [f \in DOMAIN s \ {"lik", "ll", "mah"} |-> s[f]]
LikCheck(p, o) ==
  (IF ~Close(p.ll, o.ll, Rel, Frac(1, 100000)) THEN {"log_likelihood"} ELSE {}) \cup
  (IF ~LikOK(o.ll, o.lik) THEN {"likelihood"} ELSE {}) \cup
  (IF ~Close(p.mah, o.mah, Rel, Frac(1, 100000)) THEN {"mahalanobis"} ELSE {})
If(c, name) == IF c THEN {} ELSE {name}
Ret(r, e) == If(Close(r, e.o.ret, Rel, Abs), "return value")

\* what a set of points must be, whatever square root U U' = P it uses
PointLaws(p, x, P, S, w) ==
  LET n == Rows(x)
      Wm == WmOf(p, n)
      Wc == WcOf(p, n)
      m == WMean(S, Wm, w)
  IN  If(Len(S) = NPts(p, n), "number of points") \cup
      If(Close(x, m, Rel, Abs), "mean of the points") \cup
      If(Close(P, MSumTo(LAMBDA k : MScale(Wm[k], SubW(w, Pt(S, k), x) ** MT(SubW(w, Pt(S, k), x))), Len(S)), Rel, Abs),
         "covariance of the points")

Whole(s, a) == SBatch(s, a, 1, [m |-> <<>>, c |-> <<>>])
\* the exact answer is one the code can be held to
Judged(s, e) ==
  CASE e.ev = "predict" -> Tame(SPredict(s, e.a).P)
    [] e.ev = "update" -> IsNone(e.a.z) \/ Tame(SUpdate(s, e.a).S)
    [] e.ev = "batch" -> Whole(s, e.a).tame
    [] OTHER -> TRUE

Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev = "new" -> {}
    [] e.ev = "set" -> Diff(Bare([f \in DOMAIN s |-> IF f \in DOMAIN a THEN a[f] ELSE s[f]]), e.o, 0, 0)
    [] e.ev = "copied" -> Diff(Bare(s), e.o, 0, 0)
    [] e.ev = "weights" -> LET n == a.n IN
         Diff([Wm |-> WmOf(a.pts, n), Wc |-> WcOf(a.pts, n), num |-> NPts(a.pts, n)], e.o, Frac(1, RPow(10, 10)), Frac(1, RPow(10, 12)))
         \cup If(Close(1, RSumSeq(e.o.Wm), 0, Rel), "weights sum to 1")
    [] e.ev = "sigma_points" -> PointLaws(a.pts, a.x, a.P, e.o.ret, a.w) \cup
         (IF a.chol THEN Ret(Points(a.pts, a.x, a.P, a.w), e) ELSE {})
    [] e.ev = "ut" -> LET u == UT(a.S, a.Wm, a.Wc, a.noise, a.w) IN Ret(<<u.m, u.C>>, e)
    [] e.ev = "predict" -> Diff(Bare(SPredict(s, a)), e.o, Rel, Abs)
    [] e.ev = "update" -> LET p == SUpdate(s, a) IN Diff(Bare(p), e.o, Rel, Abs) \cup
                          (IF IsNone(a.z) THEN {} ELSE LikCheck(p, e.o))
    [] e.ev = "cross_variance" -> LET W == WcOf(s.pts, Rows(s.x)) IN Ret(WCov(a.S, W, a.x, a.T, W, s.wx, s.wz, a.z), e)
    [] e.ev = "batch" -> LET b == Whole(s, a) IN
         Diff(Bare(b.s), e.o, RMul(10, Rel), RMul(10, Abs)) \cup Diff(b.out, e.o.ret, RMul(10, Rel), RMul(10, Abs)) \cup
         (IF Has(e.o, "saved") /\ ~Close(b.out.m, e.o.saved, Rel, Abs) THEN {"saver"} ELSE {})
    [] e.ev = "rts" -> Diff(SRtsOut(s, a), e.o.ret, RMul(10, Rel), RMul(10, Abs))
    [] e.ev = "owned" -> If(Close(a.before, e.o.after, 0, 0), "caller's array changed")
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF ~Judged(s, e) THEN {} ELSE IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) == IF Has(e.o, "x") THEN [f \in DOMAIN e.o \ {"ret", "saved"} |-> e.o[f]] ELSE s
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
