-------------------------------- MODULE T_ST --------------------------------
(* Executions of filterpy.stats against Gauss.                              *)
EXTENDS Gauss, IOUtils
VARIABLES tr, l, st
Rel == Frac(1, 100000000)
Abs == Frac(1, RPow(10, 300))
If(c, name) == IF c THEN {} ELSE {name}
Ret(r, e) == If(Close(r, e.o.ret, Rel, Abs), "return value")
Log(r, e) == If(Close(r, e.o.ret, Rel, Frac(1, 10000000)), "return value")

Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev = "mul" -> Ret(GMul(a.m1, a.v1, a.m2, a.v2), e)
    [] e.ev = "mul_pdf" -> Ret(GMul(a.m1, a.v1, a.m2, a.v2) \o <<GScale(a.m1, a.v1, a.m2, a.v2)>>, e)
    [] e.ev = "add" -> Ret(GAdd(a.m1, a.v1, a.m2, a.v2), e)
    [] e.ev = "multivariate_multiply" -> LET r == MvMul(a.m1, a.C1, a.m2, a.C2) IN
         If(Close(r[1], e.o.ret[1], Frac(1, 10000000), Frac(1, RPow(10, 9))), "mean") \cup
         If(Close(r[2], e.o.ret[2], Frac(1, 10000000), 0), "covariance")
    [] e.ev = "gaussian" ->
         LET p == [i \in 1..Len(a.x) |-> Pdf(a.x[i], a.m, a.v)] t == RSumSeq(p) IN
         Ret(IF a.normed THEN [i \in 1..Len(p) |-> RDiv(p[i], t)] ELSE p, e)
    [] e.ev = "multivariate_gaussian" -> Ret(MvPdf(a.x, a.m, a.C), e)
    [] e.ev = "logpdf" -> Log(LogPdf(a.x -- a.m, a.C), e)
    [] e.ev = "logpdf.line" -> Log(LogPdfLine(a.t, a.a, a.v), e)
    [] e.ev = "log_likelihood" -> Log(LogPdf(a.z -- (a.H ** a.x), Sandwich(a.H, a.P) ++ Cov(a.R, Rows(a.H))), e)
    [] e.ev = "likelihood" -> \* to the least of the numbers the machine holds in full
         If(Close(RExp(LogPdf(a.z -- (a.H ** a.x), Sandwich(a.H, a.P) ++ Cov(a.R, Rows(a.H)))), e.o.ret, Frac(1, 100000000), Frac(1, RPow(10, 307))), "return value")
    [] e.ev = "norm_cdf" -> If(Close(RAbs(RSub(Cdf(a.b, a.m, a.v), Cdf(a.a, a.m, a.v))), e.o.ret, Rel, Frac(1, RPow(10, 14))), "return value")
    [] e.ev = "s.mahalanobis" -> If(Close(Maha(a.x -- a.m, a.C), e.o.ret, Rel, Frac(1, RPow(10, 12))), "return value")
    [] e.ev = "NEES" -> If(Close([k \in 1..Len(a.xs) |-> Nees(a.xs[k], a.es[k], a.Ps[k])], e.o.ret, Rel, Frac(1, RPow(10, 12))), "return value")
    [] e.ev = "covariance_ellipse" -> If(EllipseOK(a.C, a.d, e.o.ret[1], e.o.ret[2], e.o.ret[3], Frac(1, 10000000)), "ellipse")
    \* drawn: for every standard deviation one ellipse (center, full width and height, degrees)
    [] e.ev = "plot_covariance" ->
         If(Len(e.o.ret) = Len(a.sds), "number of ellipses") \cup
         (IF Len(e.o.ret) # Len(a.sds) THEN {} ELSE
          If(\A k \in 1..Len(a.sds) : LET q == e.o.ret[k] IN
               /\ Close(a.m, q.xy, Rel, Rel)
               /\ EllipseOK(a.C, a.sds[k], RMul(q.angle, RDiv(RPi, 180)), RDiv(q.w, 2), RDiv(q.h, 2), Frac(1, 1000000)), "ellipses"))
    [] e.ev = "plot_3d" ->   \* the points of the surface at std standard deviations
         If(\A k \in 1..Len(e.o.pts) : Close(RSq(a.std), Nees(ColOf(e.o.pts[k]), a.m, a.C), Frac(1, 1000000), 0), "surface")
    [] e.ev = "plot_line" ->
         LET n == Len(e.o.x) IN
         If(\A k \in 1..n : Close(IF a.what = "pdf" THEN Pdf(e.o.x[k], a.m, a.v) ELSE Cdf(e.o.x[k], a.m, a.v),
                                  e.o.y[k], Frac(1, 1000000), Frac(1, RPow(10, 12))), "curve") \cup
         If(n > 0 /\ (IsNone(a.lim) \/ (Close(a.lim[1], e.o.x0, Rel, Rel) /\ RLe(RAbs(RSub(a.lim[2], e.o.x1)), RDiv(RSub(a.lim[2], a.lim[1]), 100)))), "limits") \cup
         If(e.o.same, "axes") \cup If(IF a.line THEN ~IsNone(e.o.mean) /\ Close(<<a.m, a.m>>, e.o.mean, Rel, Rel) ELSE IsNone(e.o.mean), "mean line")
    [] e.ev = "plot_discrete_cdf" -> If(Close([k \in 1..Len(a.ys) |-> RSumTo(LAMBDA i : a.ys[i], k)], e.o.y, Rel, Rel), "cumulative") \cup
         If(Close(IF IsNone(a.xs) THEN [k \in 1..Len(a.ys) |-> k - 1] ELSE a.xs, e.o.x, 0, 0), "abscissae")
    [] e.ev = "rand_student_t" ->  \* fraction of n samples below mu + t std
         If(\A k \in 1..Len(a.ts) : LET p == TCdf(a.df, a.ts[k]) IN
              RLe(RAbs(RSub(e.o.ret[k], p)), RMul(7, RSqrt(RDiv(RMul(p, RSub(1, p)), a.n)))), "distribution")
    [] e.ev = "rejects" -> If(e.o.raised, "accepts bad arguments")
    [] e.ev = "owned" -> If(Close(a.before, e.o.after, 0, 0), "caller's array changed")
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) == s
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
