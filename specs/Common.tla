------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Process models and the helpers of filterpy.common.                      *)
(***************************************************************************)
EXTENDS Conform

RECURSIVE Fac(_)
Fac(n) == IF n <= 1 THEN 1 ELSE n * Fac(n - 1)

\* motion of a quantity and its first `order` derivatives, the highest constant
Kin(order, dt) == [i \in 1..(order + 1) |-> [j \in 1..(order + 1) |->
                     IF j < i THEN 0 ELSE RDiv(RPow(dt, j - i), Fac(j - i))]]
\* several quantities: grouped by quantity [x x' y y'], or by derivative [x y x' y']
ByDim(A, k) == BlockDiag(A, k)
ByDerivative(A, k) == [i \in 1..(k * Rows(A)) |-> [j \in 1..(k * Cols(A)) |->
                         IF (i - 1) % k = (j - 1) % k THEN A[((i - 1) \div k) + 1][((j - 1) \div k) + 1] ELSE 0]]
Arrange(A, k, byDim) == IF byDim THEN ByDim(A, k) ELSE ByDerivative(A, k)

\* piecewise constant white noise: G G' var, G the effect of a unit noise over one step on x, x', ...
NoiseG(dim, dt) == CASE dim = 2 -> <<RDiv(RSq(dt), 2), dt>>
                     [] dim = 3 -> <<RDiv(RSq(dt), 2), dt, 1>>
                     [] dim = 4 -> <<RDiv(RPow(dt, 3), 6), RDiv(RSq(dt), 2), dt, 1>>
DiscreteQ(dim, dt, var) == LET g == ColOf(NoiseG(dim, dt)) IN MScale(var, g ** MT(g))

\* x' = F x + w, w white with density W: covariance gathered over dt, the solution of
\* dQ/dt = F Q + Q F' + W, Q(0) = 0, as a power series
RECURSIVE GramTo(_, _, _, _, _)
GramTo(F, dt, k, term, n) == IF k > n THEN Zeros(Rows(F), Rows(F))
  ELSE MAdd(term, GramTo(F, dt, k + 1, MScale(RDiv(dt, k + 1), (F ** term) ++ (term ** MT(F))), n))
Gram(F, W, dt, n) == GramTo(F, dt, 1, MScale(dt, W), n)
\* the chain of integrators x -> x' -> ... driven at its end
Chain(n) == [i \in 1..n |-> [j \in 1..n |-> IF j = i + 1 THEN 1 ELSE 0]]
LastUnit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = n /\ j = n THEN 1 ELSE 0]]
ContinuousQ(dim, dt, var) == MScale(var, Gram(Chain(dim), LastUnit(dim), dt, 2 * dim))

\* one step of the classical Runge-Kutta method for dy/dx = f(y, x)
RK4(y, x, h, f(_, _)) ==
  LET half == RDiv(h, 2)
      k1 == f(y, x)
      k2 == f(RAdd(y, RMul(half, k1)), RAdd(x, half))
      k3 == f(RAdd(y, RMul(half, k2)), RAdd(x, half))
      k4 == f(RAdd(y, RMul(h, k3)), RAdd(x, h))
  IN  RAdd(y, RMul(RDiv(h, 6), RAdd(RAdd(k1, RMul(2, k2)), RAdd(RMul(2, k3), k4))))
Ode(c, y, x) == RAdd(RAdd(RMul(c[1], y), RMul(c[2], x)), RAdd(RMul(c[3], RMul(x, y)), RAdd(c[4], RMul(c[5], RSq(y)))))

------------------------------------------------------------------------------
(* Saver.  The object it watches has attributes; some are private (their   *)
(* name starts with _), some callable, some are properties.  A save        *)
(* appends a copy of each to a list of its own.                            *)
(*   obj   name -> value         conf  [private, callable, ignore, props]  *)
(*   saved name -> sequence      n     number of saves                     *)
Kept(obj, conf) == {k \in DOMAIN obj : /\ k \notin conf.ignore
                                       /\ ~(conf.private /\ k \in conf.priv)
                                       /\ ~(conf.callable /\ k \in conf.calls)}
Save(s, obj) ==
  LET K == Kept(obj, s.conf) IN
  [s EXCEPT !.n = @ + 1,
            !.saved = [k \in K \cup DOMAIN s.saved |->
                        LET old == IF k \in DOMAIN s.saved THEN s.saved[k] ELSE <<>>
                        IN  IF k \in K THEN Append(old, obj[k]) ELSE old]]
\* the user puts a sequence of their own in place of a saved one, or beside them
Replace(s, k, v) == [s EXCEPT !.saved = [j \in {k} \cup DOMAIN s.saved |-> IF j = k THEN v ELSE s.saved[j]]]
\* an array of n column vectors loses its last axis, and then one of length 1
FlatShape(sh) == IF Len(sh) = 3 /\ sh[3] = 1 THEN IF sh[2] = 1 THEN <<sh[1]>> ELSE <<sh[1], sh[2]>> ELSE sh
=============================================================================
