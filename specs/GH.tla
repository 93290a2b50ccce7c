--------------------------------- MODULE GH ---------------------------------
(***************************************************************************)
(* Polynomial filters with fixed gains: the g-h and g-h-k filters, the     *)
(* growing memory (least squares) and the fading memory filter, and what   *)
(* is known in closed form about them.                                     *)
(*                                                                         *)
(* A filter of order p tracks x and its p derivatives.  One step with      *)
(* residual y is  Phi X + Gain y ;  g, h, k scale as 1, 1/dt, 2/dt^2.      *)
(***************************************************************************)
EXTENDS Conform

Phi(p, dt) == [i \in 1..(p + 1) |-> [j \in 1..(p + 1) |->
                 IF j < i THEN 0 ELSE CASE j - i = 0 -> 1 [] j - i = 1 -> dt [] OTHER -> RDiv(RSq(dt), 2)]]
Gain(p, dt, g, h, k) == [i \in 1..(p + 1) |-> <<CASE i = 1 -> g [] i = 2 -> RDiv(h, dt) [] OTHER -> RDiv(RMul(2, k), RSq(dt))>>]
H1(p) == <<[j \in 1..(p + 1) |-> IF j = 1 THEN 1 ELSE 0]>>

\* X: the state, one row per derivative (columns: independent quantities tracked together)
StepPred(p, dt, X) == Phi(p, dt) ** X
StepRes(p, dt, X, z) == z -- (<<StepPred(p, dt, X)[1]>>)
Step(p, dt, X, z, g, h, k) == StepPred(p, dt, X) ++ (Gain(p, dt, g, h, k) ** StepRes(p, dt, X, z))

RECURSIVE GhRun(_, _, _, _, _)    \* batch of a filter of order p: estimates before and after each measurement
GhRun(p, s, X, zs, acc) ==
  IF zs = <<>> THEN acc
  ELSE LET P == StepPred(p, s.dt, X)
           N == Step(p, s.dt, X, <<<<Head(zs)>>>>, s.g, s.h, IF p = 2 THEN s.k ELSE 0)
       IN  GhRun(p, s, N, Tail(zs), [res |-> Append(acc.res, <<N[1][1], N[2][1]>>), pred |-> Append(acc.pred, P[1][1])])
GhBatch(p, s, zs) ==
  GhRun(p, s, IF p = 2 THEN <<s.x[1], s.dx[1], s.ddx[1]>> ELSE <<s.x[1], s.dx[1]>>, zs,
        [res |-> <<<<s.x[1][1], s.dx[1][1]>>>>, pred |-> <<>>])

------------------------------------------------------------------------------
(* steady state: error recursion e' = A e + ..., A = (I - Gain H) Phi *)
ErrA(p, dt, g, h, k) == (Eye(p + 1) -- (Gain(p, dt, g, h, k) ** H1(p))) ** Phi(p, dt)
\* the solution of  V = A V A' + W
Kron(A, B) == LET n == Rows(A) m == Rows(B) IN
  [i \in 1..(n * m) |-> [j \in 1..(n * m) |->
     RMul(A[((i - 1) \div m) + 1][((j - 1) \div m) + 1], B[((i - 1) % m) + 1][((j - 1) % m) + 1])]]
Lyap(A, W) ==
  LET n == Rows(A)
      w == [i \in 1..(n * n) |-> <<W[((i - 1) \div n) + 1][((i - 1) % n) + 1]>>]
      v == MInv(Eye(n * n) -- Kron(A, A)) ** w
  IN  [i \in 1..n |-> [j \in 1..n |-> v[(i - 1) * n + j][1]]]
\* covariance of the estimate for unit white measurement noise, and of the prediction
SteadyVar(p, dt, g, h, k) == LET G == Gain(p, dt, g, h, k) IN Lyap(ErrA(p, dt, g, h, k), G ** MT(G))
PredVar(p, dt, g, h, k) == Sandwich(Phi(p, dt), SteadyVar(p, dt, g, h, k))
\* error (truth - estimate) once settled on a signal whose derivative p+1 is the constant d
Fact(n) == CASE n = 0 -> 1 [] n = 1 -> 1 [] n = 2 -> 2 [] OTHER -> 6
Drive(p, dt) == [i \in 1..(p + 1) |-> <<RDiv(RPow(dt, p + 2 - i), Fact(p + 2 - i))>>]
SteadyErr(p, dt, g, h, k, d) ==
  LET IGH == Eye(p + 1) -- (Gain(p, dt, g, h, k) ** H1(p))
  IN  MInv(Eye(p + 1) -- ErrA(p, dt, g, h, k)) ** (IGH ** MScale(d, Drive(p, dt)))
\* error of the settled prediction
SteadyPredErr(p, dt, g, h, k, d) == (Phi(p, dt) ** SteadyErr(p, dt, g, h, k, d)) ++ MScale(d, Drive(p, dt))

------------------------------------------------------------------------------
(* growing memory: exact least squares fit of a polynomial of degree p to  *)
(* all measurements z_1..z_n taken dt apart, evaluated at the last         *)
Basis(p, dt, t) == [j \in 1..(p + 1) |-> IF j = 1 THEN 1 ELSE RDiv(RPow(RMul(dt, t), j - 1), Fact(j - 1))]
Design(p, dt, n) == [i \in 1..n |-> Basis(p, dt, i - n)]         \* time 0 is the last measurement
Fit(p, dt, zs) == LET A == Design(p, dt, Len(zs)) IN MInv(MT(A) ** A) ** (MT(A) ** ColOf(zs))
FitStd(p, dt, n, sigma) == LET A == Design(p, dt, n)  C == MInv(MT(A) ** A)
                           IN  [i \in 1..(p + 1) |-> RMul(sigma, RSqrt(C[i][i]))]

(* fading memory: gains of the discounted least squares fit with factor b  *)
FmG(p, b) == CASE p = 0 -> RSub(1, b) [] p = 1 -> RSub(1, RPow(b, 2)) [] OTHER -> RSub(1, RPow(b, 3))
FmH(p, b) == CASE p = 1 -> RSq(RSub(1, b)) [] p = 2 -> RMul(Frac(3, 2), RMul(RAdd(1, b), RSq(RSub(1, b)))) [] OTHER -> 0
FmK(p, b) == IF p = 2 THEN RMul(Frac(1, 2), RPow(RSub(1, b), 3)) ELSE 0

(* every pole of the filter is at theta *)
AllPoles(p, g, h, k, theta) == MPow(ErrA(p, 1, g, h, k) -- MScale(theta, Eye(p + 1)), p + 1)
=============================================================================
