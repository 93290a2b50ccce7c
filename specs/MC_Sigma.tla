------------------------------ MODULE MC_Sigma ------------------------------
(***************************************************************************)
(* Sigma points and the filters that use them, explored over sequences of  *)
(* predictions and updates.  On a linear model every rule must reproduce   *)
(* the Kalman filter; whatever the model, a rule must reproduce mean and   *)
(* covariance for every square root; on a circle nothing may depend on how *)
(* often one went around it.                                               *)
(***************************************************************************)
EXTENDS Sigma
CONSTANT Depth
VARIABLES s, us, e, k
vars == <<s, us, e, k>>
Tol == Frac(1, RPow(10, 25))
Is(a, b) == Close(a, b, Tol, Tol)

Rules == <<[rule |-> "merwe", alpha |-> Frac(1, 2), beta |-> 2, kappa |-> 1],
           [rule |-> "merwe", alpha |-> Frac(1, 10), beta |-> 0, kappa |-> 0],
           [rule |-> "julier", kappa |-> 1], [rule |-> "julier", kappa |-> 0],
           [rule |-> "simplex"], [rule |-> "cubature"]>>
N == 2
Q1 == <<<<1, Frac(1, 2)>>, <<Frac(1, 2), 1>>>>
H1 == <<<<1, -1>>>>
Zero2 == Zeros(2, 2)
Models == <<<<<<1, 1>>, <<0, 1>>>>, <<<<1, Frac(1, 2)>>, <<-1, Frac(1, 3)>>>>>>
Sights == <<[z |-> <<<<1>>>>, R |-> <<<<1>>>>], [z |-> <<<<-3>>>>, R |-> <<<<Frac(1, 100)>>>>], [z |-> "NONE", R |-> <<<<1>>>>]>>
X0 == <<<<1>>, <<-1>>>>
P0 == <<<<2, 1>>, <<1, 3>>>>
Start == [kind |-> "UKF", x |-> X0, P |-> P0, F |-> Models[1], G |-> Zero2, Q |-> Q1, B |-> "NONE", H |-> H1, Gh |-> Zeros(1, 2),
          R |-> <<<<1>>>>, alpha |-> 1, xp |-> X0, Pp |-> P0, xo |-> X0, Po |-> P0, y |-> <<<<0>>>>, S |-> <<<<1>>>>, SI |-> <<<<1>>>>,
          K |-> Zeros(2, 1), z |-> "NONE", ll |-> 0, mah |-> 0, dt |-> 1, wx |-> FALSE, wz |-> FALSE, sf |-> <<>>, sh |-> <<>>,
          fc |-> 0, fG |-> Zero2, c |-> 0]
Init == /\ s = Start
        /\ us = [i \in 1..Len(Rules) |-> [pts |-> Rules[i]] @@ Start]
        /\ e = Start
        /\ k = 0
\* an update needs the points of a prediction
CanUpdate == us[1].sf # <<>>
SArgs == [dt |-> "NONE", g |-> 0, ut |-> 1]
DoPredict(F) ==
  /\ s' = Predict(s, [u |-> "NONE", B |-> "NONE", F |-> F, Q |-> "NONE"])
  /\ us' = [i \in 1..Len(us) |-> SPredict([us[i] EXCEPT !.F = F], SArgs)]
  /\ e' = GPredict([e EXCEPT !.kind = "EKF", !.F = F], [u |-> "NONE"])
DoUpdate(a) ==
  /\ CanUpdate
  /\ s' = Update(s, [z |-> a.z, R |-> a.R, H |-> "NONE"])
  /\ us' = [i \in 1..Len(us) |-> [SUpdate(us[i], [z |-> a.z, R |-> a.R, c |-> 0, H |-> "NONE", Gh |-> "NONE", ut |-> 1]) EXCEPT !.sf = <<>>]]
  /\ e' = EkfUpdate([e EXCEPT !.kind = "EKF", !.G = Zeros(1, 2)], [z |-> a.z, R |-> a.R, c |-> 0, cj |-> 0, resid |-> "sub"])
Next == k < Depth /\ k' = k + 1 /\ ((\E i \in 1..Len(Models) : DoPredict(Models[i])) \/ (\E i \in 1..Len(Sights) : DoUpdate(Sights[i])))
Spec == Init /\ [][Next]_vars
View == <<k, s.x, s.P, us[1].sf = <<>>>>

------------------------------------------------------------------------------
\* C14: on a linear model all filters give the Kalman filter's estimate
SamePoints == \A i \in 1..Len(us) : Is(s.x, us[i].x) /\ Is(s.P, us[i].P)
SameEkf == Is(s.x, e.x) /\ Is(s.P, e.P)
\* C09: and its likelihood
SameLik == \A i \in 1..Len(us) : Is(s.ll, us[i].ll)

\* C11: mean and covariance come back, whatever square root of P is taken
Turn == <<<<Frac(3, 5), Frac(4, 5)>>, <<Frac(-4, 5), Frac(3, 5)>>>>
Roots == <<MChol(s.P), Turn ** MChol(s.P), <<<<0, 1>>, <<1, 0>>>> ** MChol(s.P)>>
Moments == \A i \in 1..Len(Rules), j \in 1..Len(Roots) :
  LET S == PointsU(Rules[i], s.x, Roots[j], FALSE)
      Wm == WmOf(Rules[i], N)  Wc == WcOf(Rules[i], N)
      u == UT(S, Wm, Wc, "NONE", FALSE)
  IN  /\ Len(S) = NPts(Rules[i], N) /\ Len(Wm) = Len(S) /\ Len(Wc) = Len(S)
      /\ Is(1, RSumSeq(Wm)) /\ Is(s.x, u.m) /\ Is(s.P, u.C)
\* and symmetric rules have no third moments
Skew == \A i \in {1, 2, 3, 4, 6} :
  LET S == Points(Rules[i], s.x, s.P, FALSE)  Wc == WcOf(Rules[i], N)
      d(q, j) == RSub(S[q][j], s.x[j][1])
  IN  \A a, b, c \in 1..N : Is(0, RSumTo(LAMBDA q : RMul(Wc[q], RMul(d(q, a), RMul(d(q, b), d(q, c)))), Len(S)))
\* the transform is affine: moments of A x + b are A m + b, A C A'
Affine == \A i \in 1..Len(Rules) :
  LET S == Points(Rules[i], s.x, s.P, FALSE)  Wm == WmOf(Rules[i], N)  Wc == WcOf(Rules[i], N)
      A == <<<<2, -1>>, <<0, 3>>, <<1, 1>>>>  b == <<<<1>>, <<0>>, <<-5>>>>
      u == UT(FMap(S, N, LAMBDA x : (A ** x) ++ b), Wm, Wc, "NONE", FALSE)
  IN  Is((A ** s.x) ++ b, u.m) /\ Is(Sandwich(A, s.P), u.C)
\* the mean of a square is the square of the mean plus the variance (second order exactness)
SecondOrder == \A i \in 1..Len(Rules) :
  LET S == Points(Rules[i], s.x, s.P, FALSE)  Wm == WmOf(Rules[i], N)  Wc == WcOf(Rules[i], N)
      u == UT(FMap(S, N, LAMBDA x : Sq(x)), Wm, Wc, "NONE", FALSE)
  IN  \A j \in 1..N : Is(RAdd(RSq(s.x[j][1]), s.P[j][j]), u.m[j][1])

\* beta = 2 (kappa = 0) is right for Gaussians: the variance of a square, whatever alpha
GaussBeta == k > 3 \/ \A alpha \in {1, Frac(1, 2), Frac(1, 10)} :
  LET p == [rule |-> "merwe", alpha |-> alpha, beta |-> 2, kappa |-> 0]
      m == <<s.x[1]>>  v == s.P[1][1]
      u == UT(FMap(Points(p, m, <<<<v>>>>, FALSE), 1, LAMBDA x : Sq(x)), WmOf(p, 1), WcOf(p, 1), "NONE", FALSE)
  IN  Is(RAdd(RMul(RMul(4, RSq(m[1][1])), v), RMul(2, RSq(v))), u.C[1][1])

\* C12, C13: a full turn (4) of the angle changes nothing but the angle.  The spread is kept
\* well below half a turn, as it must be for a mean on the circle to make sense.
SmallP == <<<<Frac(1, 100), Frac(1, 200)>>, <<Frac(1, 200), Frac(1, 50)>>>>
Circle == k > 3 \/ \A i \in {1, 3} :
  LET f == [pts |-> Rules[i]] @@ [s EXCEPT !.wx = TRUE, !.P = SmallP, !.Q = SmallP]
      x == WrapV(TRUE, s.x)
      Around(n) == SPredict([f EXCEPT !.x = x ++ <<<<4 * n>>, <<0>>>>], SArgs)
      z == <<<<Frac(1, 3)>>>>
      Then(q) == SUpdate(q, [z |-> z, R |-> Frac(1, 4), c |-> 0, H |-> "NONE", Gh |-> "NONE", ut |-> 1])
      \* the angle itself is measured
      See(q, v) == SUpdate([q EXCEPT !.wz = TRUE, !.H = <<<<1, 0>>>>], [z |-> <<<<v>>>>, R |-> Frac(1, 4), c |-> 0, H |-> "NONE", Gh |-> "NONE", ut |-> 1])
      On(v) == RLe(-2, v) /\ RLt(v, 2)
  IN  \A n \in {-1, 1, 2} : /\ Is(WrapV(TRUE, Around(0).x), WrapV(TRUE, Around(n).x)) /\ Is(Around(0).P, Around(n).P)
                            /\ Is(WrapV(TRUE, Then(Around(0)).x), WrapV(TRUE, Then(Around(n)).x))
                            /\ \A v \in {Frac(1, 3), Frac(-19, 10), Frac(19, 10)} :
                                 LET q == See(Around(0), v)  r == See(Around(n), RAdd(v, 4 * (n + 1)))
                                 IN  Is(q.x, r.x) /\ Is(q.P, r.P) /\ Is(q.y, r.y) /\ On(q.x[1][1]) /\ On(q.y[1][1])
\* C08: the unscented smoother of a linear model is the linear one
LinSmooth == k >= 2 =>
  LET X == <<X0, s.x, X0 ++ s.x>>  P == <<P0, s.P, P0 ++ s.P>>
      Fs == <<Eye(2), Models[1], Models[1]>>  Qs == <<Q1, Q1, MScale(2, Q1)>>
      r == RtsOut(X, P, Fs, Qs)
  IN  \A i \in 1..Len(Rules) :
        LET u == SRtsOut([us[i] EXCEPT !.F = Models[1]], [X |-> X, P |-> P, Qs |-> Qs, dts |-> <<1, 1, 1>>, ut |-> 1])
        IN  Is(r.x, u.x) /\ Is(r.P, u.P)
=============================================================================
