-------------------------------- MODULE T_CM --------------------------------
(* Executions of filterpy.common against Common.                            *)
EXTENDS Common, IOUtils
VARIABLES tr, l, st
Rel == Frac(1, RPow(10, 10))
Abs == Frac(1, RPow(10, 300))
If(c, name) == IF c THEN {} ELSE {name}
Ret(r, e) == If(Close(r, e.o.ret, Rel, Abs), "return value")
\* every entry relative to itself: entries of a process noise differ by orders of magnitude
Each(A, B, rel) == /\ Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
                   /\ \A i \in 1..Rows(A), j \in 1..Cols(A) : Close(A[i][j], B[i][j], rel, Abs)
EachRet(A, e) == If(Each(A, e.o.ret, Rel), "return value")
Range(q) == {q[i] : i \in 1..Len(q)}
Conf(c) == [private |-> c.private, callable |-> c.callable, ignore |-> Range(c.ignore), priv |-> Range(c.priv), calls |-> Range(c.calls)]

\* the same names, each with the same value
Same(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Close(a[k], b[k], 0, 0)
SaverFail(p, e) ==
  If(Same(p.saved, e.o.saved), "saved values") \cup
  If(Same(p.saved, e.o.dot), "saved values by attribute") \cup
  If(p.n = e.o.n, "length") \cup If(DOMAIN p.saved = Range(e.o.keys), "keys") \cup
  If(Close(e.a.obj, e.o.obj, 0, 0), "the saved object changed")

Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev = "kinematic_state_transition" -> EachRet(Kin(a.order, a.dt), e)
    [] e.ev = "kinematic_kf" ->
         LET n == a.order + 1 k == a.dim IN
         If(Each(Arrange(Kin(a.order, a.dt), k, a.bydim), e.o.F, Rel), "F") \cup
         If(e.o.H = [i \in 1..a.dim_z |-> [j \in 1..(n * k) |->
              IF (IF a.bydim THEN (j - 1) % n = 0 ELSE j <= k) THEN e.o.one ELSE e.o.zero]], "H") \cup
         If(a.own \/ (Close(Eye(n * k), e.o.P, 0, 0) /\ Close(Eye(n * k), e.o.Q, 0, 0) /\ Close(Eye(a.dim_z), e.o.R, 0, 0)), "P, Q, R")
    [] e.ev = "motion" -> \* predicting with the model follows the trajectory sum c_j t^j
         LET pos(i, t) == RSumTo(LAMBDA j : IF j - 1 < i THEN 0 ELSE
                            RMul(RMul(a.c[j], RDiv(Fac(j - 1), Fac(j - 1 - i))), RPow(t, j - 1 - i)), Len(a.c))
         IN  If(Close([i \in 1..Len(a.c) |-> <<pos(i - 1, a.t)>>], e.o.x, Frac(1, 1000000000), Frac(1, 1000000000)), "trajectory")
    [] e.ev = "Q_discrete_white_noise" -> EachRet(Arrange(DiscreteQ(a.dim, a.dt, a.var), a.k, a.bydim), e)
    [] e.ev = "Q_continuous_white_noise" -> EachRet(Arrange(ContinuousQ(a.dim, a.dt, a.var), a.k, a.bydim), e)
    [] e.ev = "order_by_derivative" -> EachRet(ByDerivative(a.Q, a.k), e)
    [] e.ev \in {"van_loan_discretization", "linear_ode_discretation"} ->
         If(Close(MExp(MScale(a.dt, a.F)), e.o.phi, Frac(1, 1000000000), Abs), "transition") \cup
         If(Close(Gram(a.F, a.W, a.dt, 60), e.o.Q, Frac(1, 100000000), Frac(1, RPow(10, 14))), "noise")
    [] e.ev = "runge_kutta4" -> Ret([i \in 1..Len(a.y) |-> RK4(a.y[i], a.x, a.h, LAMBDA y, x : Ode(a.c, y, x))], e)
    [] e.ev = "inv_diagonal" -> Ret(Diag([i \in 1..Rows(a.S) |-> RDiv(1, a.S[i][i])]), e)
    [] e.ev = "outer_product_sum" -> If(Close(MT(a.A) ** a.B, e.o.ret, Rel, Frac(1, RPow(10, 12))), "return value")
    [] e.ev = "reshape_z" -> If(Close(a.z, e.o.ret, 0, 0), "values") \cup If(e.o.shape = a.shape, "shape")
    [] e.ev = "compare_kf" -> If(e.o.ret = a.different, "differences") \cup If(e.o.same, "compared filters changed")
                                \cup If(e.o.said = a.said /\ e.o.all, "report")
    [] e.ev = "copy_states" -> If(Close(a.expect, e.o.dst, 0, 0), "copied state") \cup If(e.o.separate, "shares arrays")
    [] e.ev = "repr" -> If(e.o.same, "printing changed the filter") \cup If(e.o.mentions, "names missing")
    [] e.ev = "rejects" -> If(e.o.raised, "accepts bad arguments")
    [] e.ev = "owned" -> If(Close(a.before, e.o.after, 0, 0), "caller's array changed")
    \* ---- Saver
    [] e.ev = "saver.new" -> SaverFail(IF a.now THEN Save([conf |-> Conf(a.conf), saved |-> [k \in {} |-> 0], n |-> 0], a.obj)
                                       ELSE [conf |-> Conf(a.conf), saved |-> [k \in {} |-> 0], n |-> 0], e)
    [] e.ev = "saver.save" -> SaverFail(Save(s, a.obj), e)
    [] e.ev = "saver.replace" -> SaverFail(Replace(s, a.key, a.val), e)
    [] e.ev = "saver.look" -> SaverFail(s, e)
    [] e.ev = "saver.to_array" -> If(e.o.raised = a.ragged, "to_array") \cup
         (IF a.ragged THEN SaverFail(s, e)
          ELSE If(Same(s.saved, e.o.dot), "array values") \cup If(e.o.arrays, "not arrays"))
    [] e.ev = "saver.flatten" -> If(\A k \in DOMAIN a.sh : Len(a.sh[k]) # 3 \/ e.o.sh[k] = FlatShape(a.sh[k]), "shapes")
                                 \cup If(Close(a.vals, e.o.vals, 0, 0), "values")
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) ==
  CASE e.ev = "saver.new" -> LET z == [conf |-> Conf(e.a.conf), saved |-> [k \in {} |-> 0], n |-> 0]
                             IN  IF e.a.now THEN Save(z, e.a.obj) ELSE z
    [] e.ev = "saver.save" -> Save(s, e.a.obj)
    [] e.ev = "saver.replace" -> Replace(s, e.a.key, e.a.val)
    [] OTHER -> s
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
