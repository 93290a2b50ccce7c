------------------------------- MODULE Sigma -------------------------------
(***************************************************************************)
(* Filters that propagate sets of points: sigma points, the unscented      *)
(* transform, the unscented and the cubature Kalman filter.                *)
(*                                                                         *)
(* A rule for points is a record [rule, alpha, beta, kappa].  A set of     *)
(* points is a matrix with one point per row.                              *)
(***************************************************************************)
EXTENDS Filters

\* the first component of a state lives on a circle of circumference 4 when w
WrapV(w, v) == IF w THEN [i \in 1..Rows(v) |-> IF i = 1 THEN <<Wrap(v[1][1])>> ELSE v[i]] ELSE v
SubW(w, a, b) == WrapV(w, a -- b)
AddW(w, a, b) == WrapV(w, a ++ b)
Pt(S, k) == ColOf(S[k])
FromCols(n, C(_)) == [k \in 1..n |-> SeqOf(C(k))]

Lambda(p, n) == CASE p.rule = "merwe" -> RSub(RMul(RSq(p.alpha), RAdd(n, p.kappa)), n)
                  [] OTHER -> p.kappa
NPts(p, n) == CASE p.rule = "simplex" -> n + 1 [] p.rule = "cubature" -> 2 * n [] OTHER -> 2 * n + 1
WmOf(p, n) ==
  CASE p.rule \in {"simplex", "cubature"} -> [i \in 1..NPts(p, n) |-> Frac(1, NPts(p, n))]
    [] OTHER -> LET la == Lambda(p, n) IN
         [i \in 1..(2 * n + 1) |-> IF i = 1 THEN RDiv(la, RAdd(n, la)) ELSE RDiv(Frac(1, 2), RAdd(n, la))]
WcOf(p, n) ==
  IF p.rule = "merwe"
  THEN [i \in 1..(2 * n + 1) |-> IF i = 1 THEN RAdd(WmOf(p, n)[1], RAdd(RSub(1, RSq(p.alpha)), p.beta)) ELSE WmOf(p, n)[i]]
  ELSE WmOf(p, n)

\* rows of the simplex with n + 1 unit-variance vertices around 0
SimplexRow(n, d) == LET la == Frac(n, n + 1)
                        q  == RSqrt(RMul(la, d * (d + 1)))
                    IN  [j \in 1..(n + 1) |-> IF j <= d THEN IF d = 1 THEN RDiv(-1, q) ELSE RDiv(1, q)
                                              ELSE IF j = d + 1 THEN IF d = 1 THEN RDiv(1, q) ELSE RDiv(-d, q) ELSE 0]
Simplex(n) == MScale(RSqrt(n), [d \in 1..n |-> SimplexRow(n, d)])

\* the points of x, P when U' U = P (U is the Cholesky factor unless told otherwise)
PointsU(p, x, U, w) ==
  LET n == Rows(x)
      scale == RSqrt(CASE p.rule = "cubature" -> n [] OTHER -> RAdd(n, Lambda(p, n)))
      D(k) == MScale(scale, ColOf(U[k]))
  IN  CASE p.rule = "simplex" -> LET T == MT(U) ** Simplex(n) IN FromCols(n + 1, LAMBDA k : x ++ ColOf(MT(T)[k]))
        [] p.rule = "cubature" -> FromCols(2 * n, LAMBDA k : IF k <= n THEN x ++ D(k) ELSE x -- D(k - n))
        [] OTHER -> FromCols(2 * n + 1, LAMBDA k : IF k = 1 THEN x
                       ELSE IF k <= n + 1 THEN SubW(w, x, MNeg(D(k - 1))) ELSE SubW(w, x, D(k - 1 - n)))
Points(p, x, P, w) == LET U == MChol(P) IN IF Len(P) > 0 /\ IsPSD(P, 0) /\ RLt(0, MDet(P)) THEN PointsU(p, x, U, w) ELSE "NONE"

\* weighted mean and covariance; on the circle the mean is taken around the first point
WMean(S, W, w) ==
  LET m0 == Pt(S, 1) IN
  IF w THEN AddW(w, m0, MSumTo(LAMBDA k : MScale(W[k], SubW(w, Pt(S, k), m0)), Len(S)))
  ELSE MT(<<W>> ** S)
WCov(S, W, m, T, W2, w1, w2, mt) ==      \* cross covariance of the points S around m and T around mt
  MSumTo(LAMBDA k : MScale(W[k], SubW(w1, Pt(S, k), m) ** MT(SubW(w2, Pt(T, k), mt))), Len(S))
UT(S, Wm, Wc, noise, w) ==
  LET m == WMean(S, Wm, w)
      C == WCov(S, Wc, m, S, Wc, w, w, m)
  IN  [m |-> m, C |-> IF IsNone(noise) THEN C ELSE C ++ noise]

\* the process and measurement functions of the drivers
Fx(s, x, dt, g) == WrapV(s.wx, Quad(s.F, RMul(dt, g), s.G, x))
Hx(A, G, x, c, w) == WrapV(w, Quad(A, c, G, x))
FMap(S, n, f(_)) == [k \in 1..Len(S) |-> SeqOf(f(Pt(S, k)))]

------------------------------------------------------------------------------
\* a: dt, g (argument of fx), ut (factor a caller's own transform applies to the noise)
SPredict(s, a) ==
  LET n  == Rows(s.x)
      dt == Or(a.dt, s.dt)
      X  == Points(s.pts, s.x, s.P, s.wx)
      Y  == FMap(X, n, LAMBDA x : Fx(s, x, dt, a.g))
      u  == UT(Y, WmOf(s.pts, n), WcOf(s.pts, n), MScale(a.ut, s.Q), s.wx)
  IN  [s EXCEPT !.x = u.m, !.P = u.C, !.xp = u.m, !.Pp = u.C, !.sf = Points(s.pts, u.m, u.C, s.wx)]

\* a: z R c (argument of hx) H G (of another sensor) ut
SUpdate(s, a) ==
  IF IsNone(a.z) THEN [s EXCEPT !.xo = s.x, !.Po = s.P, !.z = "ALLNONE"]
  ELSE
  LET n  == Rows(s.x)
      Wm == WmOf(s.pts, n)
      Wc == WcOf(s.pts, n)
      H  == Or(a.H, s.H)
      G  == Or(a.Gh, s.Gh)
      Z  == FMap(s.sf, n, LAMBDA x : Hx(H, G, x, a.c, s.wz))
      u  == UT(Z, Wm, Wc, MScale(a.ut, Cov(Or(a.R, s.R), Rows(H))), s.wz)
      C  == WCov(s.sf, Wc, s.x, Z, Wc, s.wx, s.wz, u.m)
      SI == SInv(s, u.C)
      K  == C ** SI
      y  == SubW(s.wz, a.z, u.m)
      x  == IF s.kind = "CKF" THEN s.x ++ (K ** y) ELSE AddW(s.wx, s.x, K ** y)
      P  == s.P -- Sandwich(K, u.C)
  IN  [s EXCEPT !.x = x, !.P = P, !.xo = x, !.Po = P, !.K = K, !.y = y, !.S = u.C, !.SI = SI, !.z = a.z,
                !.sh = Z, !.ll = LogPdf(y, u.C), !.mah = MahaI(y, SI)]

\* A covariance double precision can factor.  Weights of the points may be negative, so the exact
\* answer need not be one (points that go around the circle); there is no promise beyond that.
Tame(P) == IsPSD(P, Frac(-1, 10000)) /\ \A i \in 1..Rows(P) : RLt(P[i][i], 10000)

RECURSIVE SBatch(_, _, _, _)
SBatch(s, a, i, acc) ==
  IF i > Len(a.zs) THEN [s |-> s, out |-> acc, tame |-> TRUE]
  ELSE LET q == SPredict(s, [dt |-> At(a.dts, i), g |-> 1, ut |-> a.ut])
           r == SUpdate(q, [z |-> a.zs[i], R |-> At(a.Rs, i), c |-> 1, H |-> "NONE", Gh |-> "NONE", ut |-> a.ut])
       IN  IF Tame(q.P) /\ Tame(r.P) /\ (IsNone(a.zs[i]) \/ Tame(r.S))
           THEN SBatch(r, a, i + 1, [m |-> Append(acc.m, r.x), c |-> Append(acc.c, r.P)])
           ELSE [s |-> s, out |-> acc, tame |-> FALSE]

\* unscented Rauch-Tung-Striebel smoother; Qs[k], dts[k] lead into step k
RECURSIVE SRts(_, _, _, _)
SRts(s, a, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET n == Rows(s.x)
           Wm == WmOf(s.pts, n)
           Wc == WcOf(s.pts, n)
           X == Points(s.pts, a.X[k], a.P[k], s.wx)
           Y == FMap(X, n, LAMBDA x : Fx(s, x, a.dts[k + 1], 1))
           u == UT(Y, Wm, Wc, MScale(a.ut, a.Qs[k + 1]), s.wx)
           C == WCov(X, Wc, a.X[k], Y, Wc, s.wx, s.wx, u.m)
           K == C ** SInv(s, u.C)
           x == AddW(s.wx, a.X[k], K ** SubW(s.wx, acc.x[1], u.m))
           P == a.P[k] ++ Sandwich(K, acc.P[1] -- u.C)
       IN  SRts(s, a, k - 1, [x |-> <<x>> \o acc.x, P |-> <<P>> \o acc.P, K |-> <<K>> \o acc.K])
SRtsOut(s, a) == LET N == Len(a.X) n == Rows(s.x) IN
  SRts(s, a, N - 1, [x |-> <<a.X[N]>>, P |-> <<a.P[N]>>, K |-> <<Zeros(n, n)>>])
=============================================================================
