------------------------------- MODULE MC_CM -------------------------------
(* Process models: closed forms and laws of composition.                    *)
EXTENDS Common
CONSTANT Depth
VARIABLES o, i, j
vars == <<o, i, j>>
Tol == Frac(1, RPow(10, 25))
Is(x, y) == Close(x, y, Tol, Tol)
T == <<1, Frac(1, 3), Frac(5, 2), Frac(1, 1000)>>
Init == o \in 0..4 /\ i \in 1..4 /\ j \in 1..4
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
t == T[i]  u == T[j]
\* C35: moving by t and then u is moving by t + u; the matrix is the exponential of the chain of integrators
KinSteps == Is(Kin(o, t) ** Kin(o, u), Kin(o, RAdd(t, u))) /\ Is(MExp(MScale(t, Chain(o + 1))), Kin(o, t))
Coef == <<3, -1, Frac(1, 2), 2, -5>>
Pos(q, d) == RSumTo(LAMBDA m : IF m - 1 < d \/ m - 1 > o THEN 0 ELSE RMul(RMul(Coef[m], RDiv(Fac(m - 1), Fac(m - 1 - d))), RPow(q, m - 1 - d)), 5)
State(q) == [d \in 1..(o + 1) |-> <<Pos(q, d - 1)>>]
Trajectory == Is(State(RAdd(t, u)), Kin(o, u) ** State(t))
\* C34: noise gathered over two steps is the first, moved, plus the second
Gq(dt) == ContinuousQ(o + 1, dt, 2)
NoiseSteps == Is(Gq(RAdd(t, u)), Sandwich(Kin(o, u), Gq(t)) ++ Gq(u)) /\ IsPSD(Gq(t), 0)
F2 == <<<<0, 1>>, <<Frac(-1, 2), Frac(-1, 5)>>>>
W2 == <<<<Frac(1, 10), 0>>, <<0, 1>>>>
Exponential == i = 3 \/ j = 3 \/ (
  /\ Is(MExp(MScale(t, F2)) ** MExp(MScale(u, F2)), MExp(MScale(RAdd(t, u), F2)))
  /\ Is(Gram(F2, W2, RAdd(t, u), 60), Sandwich(MExp(MScale(u, F2)), Gram(F2, W2, t, 60)) ++ Gram(F2, W2, u, 60)))
ClosedForms ==
  /\ Is(ContinuousQ(2, t, 1), <<<<RDiv(RPow(t, 3), 3), RDiv(RSq(t), 2)>>, <<RDiv(RSq(t), 2), t>>>>)
  /\ Is(ContinuousQ(3, t, 1), <<<<RDiv(RPow(t, 5), 20), RDiv(RPow(t, 4), 8), RDiv(RPow(t, 3), 6)>>,
                                 <<RDiv(RPow(t, 4), 8), RDiv(RPow(t, 3), 3), RDiv(RSq(t), 2)>>, <<RDiv(RPow(t, 3), 6), RDiv(RSq(t), 2), t>>>>)
  \* a constant acceleration of unit variance over one step: what it does to position and speed
  /\ Is(DiscreteQ(2, t, 1), <<<<RDiv(RPow(t, 4), 4), RDiv(RPow(t, 3), 2)>>, <<RDiv(RPow(t, 3), 2), RSq(t)>>>>)
  /\ \A d \in 2..4 : IsPSD(DiscreteQ(d, t, 3), 0) /\ Is(0, MDet(DiscreteQ(d, t, 3)))
\* the two orderings are the same matrix with rows and columns permuted
Perm(n, m) == [a \in 1..(n * m) |-> ((a - 1) \div m) + 1 + n * ((a - 1) % m)]
Orderings == LET A == Kin(o, t) n == o + 1 p == Perm(n, 2) IN
  ByDerivative(A, 2) = [a \in 1..(2 * n) |-> [b \in 1..(2 * n) |-> ByDim(A, 2)[p[a]][p[b]]]]
\* C36: exact for a polynomial right hand side of degree 3 in x; fourth order otherwise (y' = y: the series to h^4)
RungeKutta == /\ Is(RAdd(7, RDiv(RSub(RPow(RAdd(t, u), 3), RPow(t, 3)), 3)), RK4(7, t, u, LAMBDA y, x : RSq(x)))
              /\ Is(RAdd(7, RDiv(RSub(RPow(RAdd(t, u), 4), RPow(t, 4)), 4)), RK4(7, t, u, LAMBDA y, x : RPow(x, 3)))
              /\ Is(RSumTo(LAMBDA m : RDiv(RPow(u, m - 1), Fac(m - 1)), 5), RK4(1, t, u, LAMBDA y, x : y))
Psd == LET A == <<<<t, u>>, <<1, -2>>, <<0, t>>>> IN IsPSD(MT(A) ** A, 0)
=============================================================================
