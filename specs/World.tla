------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* A program has many filters.  A new one is the documented prior of its   *)
(* kind, made of its arguments alone; what is done to one filter leaves    *)
(* the others alone; what cannot be (a dimension of zero, lists that do    *)
(* not fit) is refused, and a refused call leaves everything as it was.    *)
(***************************************************************************)
EXTENDS Conform, Integers, Sequences

\* the matrices a new filter of a kind has, for n states and m measurements
Gauss0(n, m) == [x |-> Zeros(n, 1), P |-> Eye(n), Q |-> Eye(n), R |-> Eye(m),
                 x_prior |-> Zeros(n, 1), P_prior |-> Eye(n), x_post |-> Zeros(n, 1), P_post |-> Eye(n)]
Linear(n, m) == [F |-> Eye(n), H |-> Zeros(m, n)] @@ Gauss0(n, m)
Pick(r, names) == [k \in names |-> r[k]]
EyeRect(m, n) == [i \in 1..m |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Prior(kind, n, m, a) ==
  CASE kind = "KF" -> [M |-> Zeros(n, m), alpha |-> 1, y |-> Zeros(m, 1), K |-> Zeros(n, m)] @@ Linear(n, m)
    [] kind = "EKF" -> [F |-> Eye(n), y |-> Zeros(m, 1)] @@ Gauss0(n, m)
    [] kind = "FADING" -> [alpha |-> a.alpha, y |-> Zeros(m, 1)] @@ Linear(n, m)
    [] kind = "SR" -> [y |-> Zeros(m, 1)] @@ Linear(n, m)
    [] kind = "INFO" -> [x |-> Zeros(n, 1), P_inv |-> Eye(n), Q |-> Eye(n), R_inv |-> Eye(m), H |-> Zeros(m, n), x_prior |-> Zeros(n, 1),
                         P_inv_prior |-> Eye(n), x_post |-> Zeros(n, 1), P_inv_post |-> Eye(n)]
    [] kind = "HINF" -> [x |-> Zeros(n, 1), P |-> Eye(n), Q |-> Eye(n), F |-> Eye(n), H |-> Zeros(m, n), W |-> Zeros(n, n), V |-> Zeros(m, m),
                         gamma |-> a.gamma]
    [] kind = "LAG" -> [x |-> Zeros(n, 1), P |-> Eye(n), Q |-> Eye(n), R |-> Eye(m), F |-> Eye(n), H |-> EyeRect(m, n), xSmooth |-> <<>>]
    [] kind \in {"UKF", "CKF"} -> Gauss0(n, m)
    [] kind = "ENKF" -> [x |-> a.x, P |-> a.P, Q |-> Eye(n), R |-> Eye(m), x_prior |-> a.x, P_prior |-> a.P, x_post |-> a.x, P_post |-> a.P]
    [] kind = "GH" -> [x |-> a.x, dx |-> a.dx, dt |-> a.dt, g |-> a.g, h |-> a.h]
    [] kind = "GHK" -> [x |-> a.x, dx |-> a.dx, ddx |-> a.ddx, dt |-> a.dt, g |-> a.g, h |-> a.h, k |-> a.k]
    [] kind \in {"GHO", "FM"} -> [x |-> a.x, dt |-> a.dt]      \* a number is the first of the states
    [] kind = "LSQ" -> [x |-> Zeros(a.order + 1, 1), K |-> Zeros(a.order + 1, 1), dt |-> a.dt]
    [] kind = "KIN" -> [x |-> Zeros(n, 1), P |-> Eye(n), Q |-> Eye(n), R |-> Eye(m)]
    [] kind = "IMM" -> [mu |-> a.mu, M |-> a.M]
    [] kind = "MMAE" -> [p |-> a.p]

\* which arguments there are
Valid(what, a) ==
  CASE what = "dims" -> a.n >= 1 /\ a.m >= 1 /\ a.u >= 0
    [] what = "ensemble" -> a.m >= 1 /\ a.N >= 1 /\ a.nd = 1
    [] what = "fading" -> RGe(a.alpha, 1)
    [] what = "alpha" -> a.scalar /\ RGe(a.alpha, 1)
    [] what = "imm" -> Len(a.n) >= 2 /\ \A i \in 1..Len(a.n) : a.n[i] = a.n[1]
    [] what = "mmae" -> a.filters = a.p /\ a.n >= 1
    [] what = "order" -> a.order \in 0..2
    [] what = "damping" -> a.order \in {2, 3} /\ RGe(a.theta, 0) /\ RGe(1, a.theta)
    [] what = "transition" -> a.int /\ RGe(a.order, 0)
    [] what = "list" -> a.list
    [] what = "kinematic" -> a.dim >= 1 /\ a.order >= 0 /\ a.m >= 1
    [] what = "noise" -> a.dim \in 2..4
    [] what = "same length" -> a.p = a.q
    [] what = "square" -> a.p = a.q
    [] what = "measurement" -> a.size = a.m
    [] what = "either" -> (a.p /\ ~a.q) \/ (~a.p /\ a.q)
    [] what = "not both" -> ~(a.p /\ a.q)

\* the shapes of a linear model that fit together; no z stands for one of the right size
Fits(d) ==
  LET n == d.n h == Len(d.H) one == {<<>>, <<1>>, <<1, 1>>} rows == d.H[1] IN
  /\ d.x \in {<<n>>, <<n, 1>>}
  /\ d.P = <<n, n>> /\ d.Q = <<n, n>> /\ d.F = <<n, n>>
  /\ h = 2 /\ d.H[2] = n
  /\ IF rows = 1 THEN d.R \in one ELSE d.R = <<rows, rows>>
  /\ IF d.noz THEN rows = d.m
     ELSE IF rows = 1 THEN d.z \in one
     ELSE d.z = IF Len(d.x) = 1 THEN <<rows>> ELSE <<rows, 1>>

\* everybody but i is as before
Others(w, v, i) == \A j \in 1..Len(w) : j # i => w[j] = v[j]
=============================================================================
