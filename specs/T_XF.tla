-------------------------------- MODULE T_XF --------------------------------
(* Laws across filters: executions of several filters on the same data     *)
(* against the exact linear filter of KF, the likelihood of the last       *)
(* measurement, and covariances over long lives.                           *)
EXTENDS KF, IOUtils
VARIABLES tr, l, st
If(c, name) == IF c THEN {} ELSE {name}
Rel == Frac(1, 1000000)
Abs == Frac(1, 10000000)

------------------------------------------------------------------------------
(* Peers: filters that promise the same estimate when the model is linear. *)
(* The state is the exact filter; it never looks at what the code does.    *)
Lin(s) == [f \in {"x", "P"} |-> s[f]]
XPredict(s, a) == LET q == [s EXCEPT !.F = a.F, !.Q = a.Q, !.B = a.B]
                  IN  [q EXCEPT !.x = PredX(q, [u |-> a.u, B |-> "NONE", F |-> "NONE"]),
                                !.P = PredP(q, [F |-> "NONE", Q |-> "NONE"])]
XUpdate(s, a) ==
  IF IsNone(a.z) THEN s
  ELSE LET PHT == s.P ** MT(a.H)
           S == (a.H ** PHT) ++ a.R
           K == PHT ** MInv(S)
       IN  [s EXCEPT !.x = s.x ++ (K ** (a.z -- (a.H ** s.x))), !.P = s.P -- (K ** (a.H ** s.P))]
XStep(s, e) == CASE e.ev = "x.new" -> e.a
                 [] e.ev = "x.predict" -> XPredict(s, e.a)
                 [] e.ev = "x.update" -> XUpdate(s, e.a)
Peers(p, o) == {k \in DOMAIN o : ~(Close(p.x, o[k].x, Rel, Abs) /\ Close(p.P, o[k].P, Rel, Abs))}

------------------------------------------------------------------------------
(* Likelihood: the state is <<y, S>> of the last measurement, or "NONE".   *)
(* e.o lists what was read, in the order it was read.                      *)
\* (with how much of the distance the rounding of z and H x can make up)
LastMeas(a) == LET y == a.z -- (a.H ** a.x)
                   S == Sandwich(a.H, a.P) ++ Cov(a.R, Rows(a.H))
                   big == RAdd(MMaxAbs(a.z), RMul(Rows(a.x), RMul(MMaxAbs(a.H), MMaxAbs(a.x))))
               IN  <<y, S, RMul(Frac(1, RPow(10, 14)), RMul(big, RSqrt(RAbs(MTrace(MInv(S))))))>>
LL(m) == LogPdf(m[1], m[2])
LFloor(ll, lik) == IF RLt(ll, -800) THEN REq(lik, FloatMin) ELSE LikOK(ll, lik)
ReadOK(m, r) ==
  CASE r.what = "ll"  -> Close(LL(m), r.v, Frac(1, 100000000), Frac(1, 10000000))
    [] r.what = "lik" -> IsRat(r.v) /\ LFloor(LL(m), r.v)
    [] r.what = "mah" -> Close(Maha(m[1], m[2]), r.v, Frac(1, 10000000), RAdd(m[3], Frac(1, RPow(10, 9))))
Reads(m, e) == IF IsNone(m) THEN UNION {If(r.what # "lik" \/ RLt(0, r.v), "no positive likelihood") : r \in {e.o.reads[i] : i \in 1..Len(e.o.reads)}}
               ELSE {e.o.reads[i].what : i \in {j \in 1..Len(e.o.reads) : ~ReadOK(m, e.o.reads[j])}}

------------------------------------------------------------------------------
(* Covariances: symmetric, and no variance in any direction is negative,   *)
(* up to rounding, which is relative to the largest of `scale`.            *)
Symm(A, eps) == \A i \in 1..Rows(A), j \in 1..Rows(A) : RLe(RAbs(RSub(A[i][j], A[j][i])), eps)
CovOK(A, n, eps) == /\ Rows(A) = n /\ Cols(A) = n
                    /\ \A i \in 1..n, j \in 1..n : IsRat(A[i][j])
                    /\ Symm(A, eps) /\ IsPSD(A, eps)

Fails(s, e) ==
  LET a == e.a IN
  CASE e.ev \in {"x.new", "x.predict", "x.update"} -> Peers(XStep(s, e), e.o)
    \* a whole history at once: every filter ends where the exact one does, and passes it at every step
    [] e.ev = "x.batch" -> UNION {If(Close(s.path[i].x, e.o.m[i], Rel, Abs) /\ Close(s.path[i].P, e.o.c[i], Rel, Abs), a.who) : i \in 1..Len(e.o.m)}
                           \cup If(Len(s.path) = Len(e.o.m), a.who)
    [] e.ev = "lik" -> Reads(LastMeas(a), e)
    [] e.ev = "lik.again" -> Reads(s, e)
    [] e.ev = "f.loglik" -> If(Close(LL(LastMeas(a)), e.o.ret, Frac(1, 100000000), Frac(1, 10000000)), "log-likelihood")
    [] e.ev = "cov" -> {k \in DOMAIN e.o : ~CovOK(e.o[k], a.n[k], RMul(a.eps, a.scale))}
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) ==
  CASE e.ev = "x.new" -> [path |-> <<>>] @@ e.a
    [] e.ev = "x.predict" -> XStep(s, e)
    [] e.ev = "x.update" -> LET q == XStep(s, e) IN [q EXCEPT !.path = Append(@, Lin(q))]
    [] e.ev = "lik" -> LastMeas(e.a)
    [] OTHER -> s
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
