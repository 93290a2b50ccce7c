-------------------------------- MODULE T_GH --------------------------------
(* Executions of the g-h, least squares and fading memory filters and of    *)
(* the gain design functions against GH.                                    *)
EXTENDS GH, IOUtils
VARIABLES tr, l, st
Rel == Frac(1, 100000000)
Abs == Frac(1, 1000000000)
If(c, name) == IF c THEN {} ELSE {name}
Ret(r, e) == If(Close(r, e.o.ret, Rel, Abs), "return value")
D(r, e) == Diff(r, e.o, Rel, Abs)
Diagonal(V) == [i \in 1..Rows(V) |-> V[i][i]]

Gh(s, e) ==
  LET a == e.a
      X == <<SeqOf(s.x), SeqOf(s.dx)>>
      z == <<SeqOf(a.z)>>
      P == StepPred(1, s.dt, X)
      N == Step(1, s.dt, X, z, Or(a.g, s.g), Or(a.h, s.h), 0)
      y == StepRes(1, s.dt, X, z)
  IN  D([x |-> ColOf(N[1]), dx |-> ColOf(N[2]), xp |-> ColOf(P[1]), dxp |-> ColOf(P[2]), y |-> ColOf(y[1]), z |-> a.z,
         g |-> s.g, h |-> s.h, dt |-> s.dt, ret |-> <<ColOf(N[1]), ColOf(N[2])>>], e)
Ghk(s, e) ==
  LET a == e.a
      X == <<SeqOf(s.x), SeqOf(s.dx), SeqOf(s.ddx)>>
      z == <<SeqOf(a.z)>>
      P == StepPred(2, s.dt, X)
      N == Step(2, s.dt, X, z, Or(a.g, s.g), Or(a.h, s.h), Or(a.k, s.k))
      y == StepRes(2, s.dt, X, z)
  IN  D([x |-> ColOf(N[1]), dx |-> ColOf(N[2]), ddx |-> ColOf(N[3]), xp |-> ColOf(P[1]), dxp |-> ColOf(P[2]), ddxp |-> ColOf(P[3]),
         y |-> ColOf(y[1]), z |-> a.z, g |-> s.g, h |-> s.h, k |-> s.k, dt |-> s.dt, ret |-> <<ColOf(N[1]), ColOf(N[2])>>], e)
Same(s, e) == Diff(s, e.o, 0, 0)

Zero(k) == [i \in 1..k |-> 0]
Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev \in {"gh.new", "ghk.new", "gho.new"} -> Diff(a, e.o, 0, 0)
    [] e.ev = "fm.new" ->
         LET p == a.p b == a.b dt == a.dt
             g == FmG(p, b) h == FmH(p, b) k == FmK(p, b)
             \* truth is t^(p+1), whose derivative p+1 is (p+1)!
             er == SteadyErr(p, dt, g, h, k, Fact(p + 1))
         IN  D([x |-> a.x, P |-> Diagonal(SteadyVar(p, dt, g, h, k)), err |-> SeqOf(er)], e)
    [] e.ev \in {"gh.copied", "ghk.copied", "gho.copied", "fm.copied"} -> Same(s, e)
    \* a parameter of the recursion changes; the terms computed when the filter was made do not
    [] e.ev = "fm.set" -> Same([s EXCEPT !.beta = a.beta, !.dt = a.dt], e)
    [] e.ev = "lsq.copied" -> If(e.o.n = Len(s.zs), "n") \cup (IF Has(s, "x") THEN If(Close(s.x, e.o.x, 0, 0), "x") ELSE {})
    [] e.ev = "gh.update" -> Gh(s, e)
    [] e.ev = "ghk.update" -> Ghk(s, e)
    [] e.ev = "gho.update" ->
         LET p == RInt(s.order)
             z == <<<<a.z>>>>
         IN  D([x |-> Step(p, s.dt, s.x, z, Or(a.g, s.g), Or(a.h, s.h), Or(a.k, s.k)), y |-> StepRes(p, s.dt, s.x, z)[1][1], z |-> a.z,
                g |-> s.g, h |-> s.h, k |-> s.k, dt |-> s.dt], e)
    [] e.ev \in {"gh.batch", "ghk.batch"} -> Same(s, e) \cup
         LET b == GhBatch(IF e.ev = "ghk.batch" THEN 2 ELSE 1, s, a.zs) IN
         If(Close(b.res, e.o.ret, Rel, Abs), "results") \cup (IF a.save THEN If(Close(b.pred, e.o.pred, Rel, Abs), "predictions") ELSE {})
         \cup (IF a.saver THEN If(e.o.saved = Len(a.zs), "saver") ELSE {})
    [] e.ev = "gh.vrf" -> Same(s, e) \cup
         LET V == SteadyVar(1, s.dt, s.g, s.h, 0) IN
         Ret(<<Diagonal(V), PredVar(1, s.dt, s.g, s.h, 0)[1][1]>>, e)
    [] e.ev = "ghk.vrf" -> Same(s, e) \cup
         LET V == SteadyVar(2, s.dt, s.g, s.h, s.k) IN
         Ret(<<Diagonal(V), PredVar(2, s.dt, s.g, s.h, s.k)[1][1]>>, e)
    [] e.ev = "ghk.bias" -> Same(s, e) \cup Ret(RNeg(SteadyPredErr(2, s.dt, s.g, s.h, s.k, a.j)[1][1]), e)
    \* ---- growing memory
    [] e.ev \in {"lsq.new", "lsq.reset"} -> LET k == RInt(a.order) + 1 IN
         If(Close(<<Zero(k), Zero(k), <<0>>, 0>>, e.o.zero, 0, 0), "as constructed") \cup If(e.o.lens = <<k, k>>, "sizes")
    [] e.ev = "lsq.update" -> LET zs == Append(s.zs, a.z) n == Len(zs) p == RInt(s.order) IN
         If(e.o.n = n, "n") \cup
         (IF n > p THEN If(Close(SeqOf(Fit(p, s.dt, zs)), e.o.x, Frac(1, RPow(10, 7)), Frac(1, RPow(10, 7))), "fit") \cup
                        If(Close(e.o.x, e.o.ret, 0, 0), "return value")
          \* too few for a fit: any polynomial through the measurement
          ELSE If(Close(a.z, e.o.x[1], Rel, Abs), "interpolates"))
    [] e.ev = "lsq.errors" -> LET n == Len(s.zs) p == RInt(s.order) IN
         IF n > p THEN LET f == FitStd(p, s.dt, n, s.sigma) IN D([error |-> f, std |-> f], e)
         ELSE If(\A i \in 1..Len(e.o.std) : IsRat(e.o.std[i]) /\ IsRat(e.o.error[i]), "finite errors")
    \* ---- fading memory
    [] e.ev = "fm.update" -> LET p == RInt(s.order) IN
         D([x |-> Step(p, s.dt, s.x, <<<<a.z>>>>, FmG(p, s.beta), FmH(p, s.beta), FmK(p, s.beta)), P |-> s.P, err |-> s.err], e)
    \* ---- design of the gains
    [] e.ev = "least_squares_parameters" ->
         \* with these gains for n = 0, 1, ... the g-h filter is the growing memory line fit
         LET n == a.n + 1
             A == Design(1, 1, n)
             w == IF n < 2 THEN <<<<1>>>> ELSE MInv(MT(A) ** A) ** MT(A)    \* weights of z_1..z_n in the fit
         IN  IF n < 2 THEN If(Close(1, e.o.ret[1], Rel, Abs), "return value") ELSE Ret(<<w[1][n], w[2][n]>>, e)
    [] e.ev = "critical_damping_parameters" ->
         LET r == e.o.ret p == Len(r) - 1 IN
         If(p = a.order - 1, "order") \cup
         If(Close(Zeros(p + 1, p + 1), AllPoles(p, r[1], r[2], IF p = 2 THEN r[3] ELSE 0, a.theta), 0, Frac(1, RPow(10, 12))), "poles")
    [] e.ev = "benedict_bornder_constants" ->
         LET g == a.g g2 == RSq(g) IN
         Ret(<<g, IF a.critical
                  THEN RDiv(RMul(Frac(8, 10), RSub(RSub(2, g2), RMul(2, RSqrt(RSub(1, g2))))), g2)
                  ELSE RDiv(g2, RSub(2, g))>>, e)
    [] e.ev = "optimal_noise_smoothing" ->
         LET r == e.o.ret g == a.g h == r[2]
             q == RAdd(RAdd(RMul(RMul(4, RSub(1, g)), RSq(h)), RMul(RSub(RMul(4, RSq(g)), RMul(2, RPow(g, 3))), h)), RMul(-3, RPow(g, 4)))
         IN  If(Close(g, r[1], 0, 0), "g") \cup If(RLt(0, h) /\ Close(0, q, 0, Frac(1, RPow(10, 12))), "h") \cup
             If(Close(RDiv(RSub(RMul(h, RSub(2, g)), RSq(g)), g), r[3], Rel, Frac(1, RPow(10, 10))), "k")
    \* a g-h filter with the gains of least_squares_parameters is the growing memory filter
    [] e.ev = "ls_gains" -> If(Close(SeqOf(Fit(1, a.dt, a.zs)), e.o.ret, Frac(1, RPow(10, 7)), Frac(1, RPow(10, 7))), "line fit")
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) ==
  CASE e.ev = "lsq.update" -> [zs |-> Append(s.zs, e.a.z), x |-> e.o.x] @@ s
    [] e.ev = "lsq.copied" -> s
    [] e.ev \in {"lsq.new", "lsq.reset"} -> [zs |-> <<>>] @@ e.a
    [] Has(e.o, "x") -> [f \in DOMAIN e.o \ {"ret", "pred", "saved"} |-> e.o[f]]
    [] OTHER -> s
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
