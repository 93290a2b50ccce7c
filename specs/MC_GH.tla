------------------------------- MODULE MC_GH -------------------------------
(***************************************************************************)
(* Fixed gain polynomial filters: what recursions compute, against what    *)
(* they are for.  The state machine feeds measurements to the recursions.  *)
(***************************************************************************)
EXTENDS GH
CONSTANT Depth
VARIABLES p, dt, zs, X, k
vars == <<p, dt, zs, X, k>>
Tol == Frac(1, RPow(10, 25))
Is(a, b) == Close(a, b, Tol, Tol)
Dts == <<1, Frac(1, 3)>>
Zs == <<0, 1, Frac(-7, 2)>>
\* least squares gains of the n-th measurement
LsG(q, n) == CASE q = 0 -> Frac(1, n) [] q = 1 -> Frac(2 * (2 * n - 1), n * (n + 1))
               [] OTHER -> Frac(3 * (3 * n * n - 3 * n + 2), n * (n + 1) * (n + 2))
LsH(q, n) == CASE q = 1 -> Frac(6, n * (n + 1)) [] q = 2 -> Frac(18 * (2 * n - 1), n * (n + 1) * (n + 2)) [] OTHER -> 0
LsK(q, n) == IF q = 2 THEN Frac(30, n * (n + 1) * (n + 2)) ELSE 0
Init == p \in 0..2 /\ \E i \in 1..2 : dt = Dts[i] /\ zs = <<>> /\ X = Zeros(p + 1, 1) /\ k = 0
Feed(z) == /\ zs' = Append(zs, z)
           /\ X' = LET n == Len(zs) + 1 IN Step(p, dt, X, <<<<z>>>>, LsG(p, n), LsH(p, n), LsK(p, n))
           /\ UNCHANGED <<p, dt>>
Next == k < Depth /\ k' = k + 1 /\ \E i \in 1..Len(Zs) : Feed(Zs[i])
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* C25: the recursion is the best fit of a polynomial to all measurements
Recursion == Len(zs) > p => Is(Fit(p, dt, zs), X)
\* C25: the fit leaves residuals orthogonal to every polynomial of its degree
Orthogonal == Len(zs) > p =>
  LET A == Design(p, dt, Len(zs))  r == ColOf(zs) -- (A ** Fit(p, dt, zs)) IN Is(Zeros(p + 1, 1), MT(A) ** r)
\* C26: the fading memory gains are those of the infinite discounted fit, and put every pole at b
Bs == <<Frac(1, 2), Frac(1, 5)>>
RECURSIVE Disc(_, _, _, _)
Disc(q, d, b, t) == IF t < 0 THEN Zeros(q + 1, q + 1)
                    ELSE LET v == <<Basis(q, d, -t)>> IN MAdd(MScale(RPow(b, t), MT(v) ** v), Disc(q, d, b, t - 1))
Fading == k = 0 => \A i \in 1..2 :
  LET b == Bs[i]
      g == MInv(Disc(p, dt, b, 120)) ** ColOf(Basis(p, dt, 0))
  IN  /\ Is(g, Gain(p, dt, FmG(p, b), FmH(p, b), FmK(p, b)))
      /\ Is(Zeros(p + 1, p + 1), AllPoles(p, FmG(p, b), FmH(p, b), FmK(p, b), b))
\* C24: the steady variance is the sum over all past measurements of their squared weights
Gains == <<<<Frac(1, 2), Frac(1, 4), Frac(1, 20)>>, <<Frac(4, 5), Frac(1, 2), Frac(1, 10)>>>>
RECURSIVE SumW(_, _, _)
SumW(A, W, n) == IF n = 0 THEN W ELSE W ++ Sandwich(A, SumW(A, W, n - 1))
Variance == k = 0 => \A i \in 1..2 :
  LET g == Gains[i][1]  h == IF p > 0 THEN Gains[i][2] ELSE 0  kk == IF p > 1 THEN Gains[i][3] ELSE 0
      G == Gain(p, dt, g, h, kk)
      V == SumW(ErrA(p, dt, g, h, kk), G ** MT(G), 300)
  IN  Close(V, SteadyVar(p, dt, g, h, kk), Frac(1, 1000000), Frac(1, 1000000))
\* C24: and the steady error on a signal with one more constant derivative d
\* the signal 1 + t + t^2/2 + ... + 2 t^(p+1)/(p+1)! and its derivatives at step n
Signal(n) == LET t == RMul(n, dt) IN
  [j \in 1..(p + 1) |-> <<RAdd(1, RSumTo(LAMBDA i : IF i + j - 1 > p + 1 THEN 0
                             ELSE IF i + j - 1 = p + 1 THEN RMul(2, RDiv(RPow(t, i), Fact(i))) ELSE RDiv(RPow(t, i), Fact(i)), p + 1))>>]
RECURSIVE Track(_, _, _, _, _)
Track(E, g, h, kk, n) ==        \* E: the estimate after n steps
  IF n = 120 THEN Signal(n) -- E
  ELSE Track(Step(p, dt, E, <<Signal(n + 1)[1]>>, g, h, kk), g, h, kk, n + 1)
Settled == k = 0 => \A i \in 1..2 :
  LET g == Gains[i][1]  h == IF p > 0 THEN Gains[i][2] ELSE 0  kk == IF p > 1 THEN Gains[i][3] ELSE 0
  IN  Close(SteadyErr(p, dt, g, h, kk, 2), Track(Zeros(p + 1, 1), g, h, kk, 0), Frac(1, 1000), Frac(1, 1000))
\* C23: a filter whose gains are (1, 1, 1/2) follows any polynomial of its degree exactly after p + 1 measurements
Poly(c, t) == RAdd(c[1], RAdd(RMul(c[2], t), RMul(c[3], RSq(t))))
RECURSIVE Follow(_, _, _)
Follow(E, c, n) == IF n > 8 THEN E
                   ELSE Follow(Step(p, dt, E, <<<<Poly(c, RMul(n, dt))>>>>, LsG(p, n + 1), LsH(p, n + 1), LsK(p, n + 1)), c, n + 1)
Exact == k = 0 => LET c == <<3, IF p > 0 THEN -2 ELSE 0, IF p > 1 THEN Frac(1, 2) ELSE 0>>
                      E == Follow(Zeros(p + 1, 1), c, 0)  t == RMul(8, dt)
                  IN  /\ Is(Poly(c, t), E[1][1])
                      /\ p > 0 => Is(RAdd(c[2], RMul(RMul(2, c[3]), t)), E[2][1])
                      /\ p > 1 => Is(RMul(2, c[3]), E[3][1])
\* C23: steps of dt compose: prediction over 2 dt is prediction twice
Compose == Is(StepPred(p, RMul(2, dt), X), StepPred(p, dt, StepPred(p, dt, X)))
=============================================================================
