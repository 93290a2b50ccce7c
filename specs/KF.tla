--------------------------------- MODULE KF ---------------------------------
(***************************************************************************)
(* The linear Kalman filter: class KalmanFilter and the functions of       *)
(* filterpy.kalman that do the same on bare arrays.                        *)
(*                                                                         *)
(* The state of a filter is a record                                       *)
(*   x P            estimate and covariance                                *)
(*   F Q B          process model            alpha  fading factor          *)
(*   H R M          measurement model, M = cross correlation of the noises *)
(*   xp Pp xo Po    x_prior P_prior x_post P_post                          *)
(*   y S SI K z     of the last update                                     *)
(*   ll lik mah     log-likelihood, likelihood, Mahalanobis distance of it *)
(* Vectors are column matrices; "NONE" is Python's None and "ALLNONE" the  *)
(* column of Nones that stands for a missing measurement.                  *)
(***************************************************************************)
EXTENDS Conform

Cov(q, n) == IF IsRat(q) THEN MScale(q, Eye(n)) ELSE q     \* a scalar covariance is q I
FloatMin == RPow(2, -1022)
LnFloatMin == RMul(-1022, RLn(2))

\* log of the Gaussian density with covariance S at the residual y
LogPdf(y, S) ==
  RMul(Frac(-1, 2), RAdd(RAdd((MT(y) ** (MInv(S) ** y))[1][1], RLn(MDet(S))),
                      RMul(Rows(S), RLn(RMul(2, RPi)))))
\* the density, floored at the smallest positive normal double, agrees with its logarithm
LikOK(ll, lik) == LET p == RMax(RExp(ll), FloatMin) IN
   RLe(FloatMin, lik) /\ RLe(RAbs(RSub(lik, p)), RMul(Frac(1, 1000000), p))
Maha(y, S) == RSqrt((MT(y) ** (MInv(S) ** y))[1][1])

------------------------------------------------------------------------------
\* predict: no u, or no B, means no control term
PredX(s, a) == LET Fx == Or(a.F, s.F) ** s.x  B == Or(a.B, s.B)
               IN  IF IsNone(B) \/ IsNone(a.u) THEN Fx ELSE Fx ++ (B ** a.u)
PredP(s, a) == MScale(RSq(s.alpha), Sandwich(Or(a.F, s.F), s.P)) ++ Cov(Or(a.Q, s.Q), Rows(s.x))

Predict(s, a) == LET x == PredX(s, a)  P == PredP(s, a)
                 IN  [s EXCEPT !.x = x, !.P = P, !.xp = x, !.Pp = P]

\* the inverse a filter uses for S: that of S ++ iv I where the user assigned one of his own
SInv(s, S) == IF ~Has(s, "iv") THEN MInv(S) ELSE IF Close(s.iv, 0, 0, 0) THEN MInv(S)
              ELSE MInv(S ++ MScale(s.iv, Eye(Rows(S))))
MahaI(y, SI) == RSqrt((MT(y) ** (SI ** y))[1][1])

\* update with any measurement function hx(x), Jacobian H, covariance R
UpdateWith(s, z, y, H, R) ==
  LET PHT == s.P ** MT(H)
      S  == (H ** PHT) ++ R
      SI == SInv(s, S)
      K  == PHT ** SI
      x  == s.x ++ (K ** y)
      IKH == Eye(Rows(s.x)) -- (K ** H)
      P  == Sandwich(IKH, s.P) ++ Sandwich(K, R)
  IN  [s EXCEPT !.x = x, !.P = P, !.xo = x, !.Po = P, !.y = y, !.S = S, !.SI = SI, !.K = K, !.z = z,
                !.ll = LogPdf(y, S), !.mah = MahaI(y, SI)]

\* a missing measurement changes nothing but the record of the last update
Missing(s) == [s EXCEPT !.xo = s.x, !.Po = s.P, !.z = "ALLNONE", !.y = Zeros(Rows(s.H), 1)]

UpdH(s, a) == Or(a.H, s.H)
Update(s, a) ==
  IF IsNone(a.z) THEN Missing(s)
  ELSE LET H == UpdH(s, a) IN UpdateWith(s, a.z, a.z -- (H ** s.x), H, Cov(Or(a.R, s.R), Rows(H)))

\* steady state: the gain and the covariances are left as they are
PredictSS(s, a) == LET x == PredX(s, a) IN [s EXCEPT !.x = x, !.xp = x, !.Pp = s.P]
UpdateSS(s, a) ==
  IF IsNone(a.z) THEN Missing(s)
  ELSE LET y == a.z -- (s.H ** s.x)  x == s.x ++ (s.K ** y)
       IN  [s EXCEPT !.x = x, !.xo = x, !.Po = s.P, !.y = y, !.z = a.z, !.ll = LogPdf(y, s.S)]

\* process and measurement noise correlated by M
UpdateCorr(s, a) ==
  IF IsNone(a.z) THEN Missing(s)
  ELSE LET H == UpdH(s, a)
           R == Cov(Or(a.R, s.R), Rows(H))
           y == a.z -- (H ** s.x)
           S == (((H ** s.P) ** MT(H)) ++ ((H ** s.M) ++ (MT(s.M) ** MT(H)))) ++ R
           SI == SInv(s, S)
           K == ((s.P ** MT(H)) ++ s.M) ** SI
           x == s.x ++ (K ** y)
           P == s.P -- (K ** ((H ** s.P) ++ MT(s.M)))
       IN  [s EXCEPT !.x = x, !.P = P, !.xo = x, !.Po = P, !.y = y, !.S = S, !.SI = SI, !.K = K,
                     !.z = a.z, !.ll = LogPdf(y, S), !.mah = MahaI(y, SI)]

\* rows start+1 .. start+n of the measurement alone
SeqUpdate(s, a) ==
  LET n == Rows(a.z)
      b == a.start
      H == IF IsNone(a.H) THEN SubMat(s.H, b + 1, b + n, 1, Cols(s.H)) ELSE a.H
      R == Cov(IF IsNone(a.R) THEN SubMat(s.R, b + 1, b + n, b + 1, b + n) ELSE a.R, n)
      plain == [f \in DOMAIN s \ {"iv"} |-> s[f]]      \* iv is for S alone, not for parts of it
  IN  UpdateWith(plain, a.z, a.z -- (H ** s.x), H, R)
PutRows(A, B, b) == [i \in 1..Rows(A) |-> IF i > b /\ i <= b + Rows(B) THEN B[i - b] ELSE A[i]]
PutCols(A, B, b) == MT(PutRows(MT(A), MT(B), b))

------------------------------------------------------------------------------
\* n predict/update epochs over sequences of models; entry i of an absent
\* sequence is the filter's own
At(seq, i) == IF IsNone(seq) THEN "NONE" ELSE seq[i]
PArgs(a, i) == [u |-> At(a.us, i), B |-> At(a.Bs, i), F |-> At(a.Fs, i), Q |-> At(a.Qs, i)]
UArgs(a, i) == [z |-> a.zs[i], R |-> At(a.Rs, i), H |-> At(a.Hs, i)]
RECURSIVE Batch(_, _, _, _)
Batch(s, a, i, acc) ==
  IF i > Len(a.zs) THEN [s |-> s, out |-> acc]
  ELSE LET p == IF a.first THEN Update(s, UArgs(a, i)) ELSE Predict(s, PArgs(a, i))
           q == IF a.first THEN Predict(p, PArgs(a, i)) ELSE Update(p, UArgs(a, i))
           u == IF a.first THEN p ELSE q
           v == IF a.first THEN q ELSE p
       IN  Batch(q, a, i + 1, [m  |-> Append(acc.m, u.x),  c  |-> Append(acc.c, u.P),
                               mp |-> Append(acc.mp, v.x), cp |-> Append(acc.cp, v.P)])
NoOut == [m |-> <<>>, c |-> <<>>, mp |-> <<>>, cp |-> <<>>]
BatchOut(s, a) == Batch(s, a, 1, NoOut)

\* Rauch-Tung-Striebel: Fs[k], Qs[k] lead into step k
RECURSIVE Rts(_, _, _, _, _, _)
Rts(X, P, Fs, Qs, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET F  == Fs[k + 1]
           Pp == Sandwich(F, P[k]) ++ Qs[k + 1]
           K  == (P[k] ** MT(F)) ** MInv(Pp)
           x  == X[k] ++ (K ** (acc.x[1] -- (F ** X[k])))
           c  == P[k] ++ Sandwich(K, acc.P[1] -- Pp)
       IN  Rts(X, P, Fs, Qs, k - 1, [x |-> <<x>> \o acc.x, P |-> <<c>> \o acc.P,
                                     K |-> <<K>> \o acc.K, Pp |-> <<Pp>> \o acc.Pp])
RtsOut(X, P, Fs, Qs) ==
  LET n == Len(X) d == Rows(X[1])
  IN  Rts(X, P, Fs, Qs, n - 1, [x |-> <<X[n]>>, P |-> <<P[n]>>, K |-> <<Zeros(d, d)>>, Pp |-> <<P[n]>>])
=============================================================================
