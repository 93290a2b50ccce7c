------------------------------- MODULE Banks -------------------------------
(***************************************************************************)
(* Estimators made of Kalman filters: interacting multiple models (IMM),   *)
(* the multiple model adaptive estimator (MMAE), the fixed lag smoother,   *)
(* and the ensemble Kalman filter.  s.fs is the tuple of filters, each a   *)
(* state of KF.                                                            *)
(***************************************************************************)
EXTENDS KF

\* moment matching: mean and covariance of a mixture of Gaussians
MixX(fs, w) == MSumTo(LAMBDA i : MScale(w[i], fs[i].x), Len(fs))
MixP(fs, w, x) == MSumTo(LAMBDA i : LET y == fs[i].x -- x IN MScale(w[i], (y ** MT(y)) ++ fs[i].P), Len(fs))
Normalize(w) == LET t == RSumSeq(w) IN [i \in 1..Len(w) |-> RDiv(w[i], t)]
Combine(s, fs, w) == LET x == MixX(fs, w) IN [s EXCEPT !.fs = fs, !.x = x, !.P = MixP(fs, w, x)]

NoKw(u) == [u |-> u, B |-> "NONE", F |-> "NONE", Q |-> "NONE"]
Meas(z) == [z |-> z, R |-> "NONE", H |-> "NONE"]

\* ---- IMM.  M[i][j]: probability of going from mode i to mode j
Cbar(mu, M) == [j \in 1..Len(mu) |-> RSumTo(LAMBDA i : RMul(mu[i], M[i][j]), Len(mu))]
\* a mode which no other can reach, and which is not there, keeps its own estimate
Omega(mu, M) == LET c == Cbar(mu, M) IN
  [i \in 1..Len(mu) |-> [j \in 1..Len(mu) |-> IF Close(c[j], 0, 0, 0) THEN (IF i = j THEN 1 ELSE 0)
                                               ELSE RDiv(RMul(M[i][j], mu[i]), c[j])]]
Mixed(s) == LET om == Omega(s.mu, s.M) IN
  [j \in 1..Len(s.fs) |->
     LET w == [i \in 1..Len(s.fs) |-> om[i][j]]  x == MixX(s.fs, w)
     IN  [s.fs[j] EXCEPT !.x = x, !.P = MixP(s.fs, w, x)]]
ImmPredict(s, a) ==
  LET mx == Mixed(s)
      r == Combine(s, [j \in 1..Len(s.fs) |-> Predict(mx[j], NoKw(a.u))], s.mu)
  IN  [r EXCEPT !.xp = r.x, !.Pp = r.P]
\* lik: the likelihoods the filters report
ImmUpdate(s, a, lik) ==
  LET fs == [j \in 1..Len(s.fs) |-> Update(s.fs[j], Meas(a.z))]
      c  == Cbar(s.mu, s.M)
      mu == IF IsNone(a.z) THEN s.mu ELSE Normalize([j \in 1..Len(fs) |-> RMul(c[j], lik[j])])
      r  == IF IsNone(a.z) THEN [s EXCEPT !.fs = fs] ELSE Combine([s EXCEPT !.mu = mu], fs, mu)
  IN  [r EXCEPT !.xo = r.x, !.Po = r.P]

\* ---- MMAE
MmaePredict(s, a) ==
  LET r == Combine(s, [j \in 1..Len(s.fs) |-> Predict(s.fs[j], NoKw(a.u))], s.p) IN [r EXCEPT !.xp = r.x, !.Pp = r.P]
MmaeUpdate(s, a, lik) ==
  LET H  == Or(a.H, s.H)
      fs == [j \in 1..Len(s.fs) |-> Update(s.fs[j], [z |-> a.z, R |-> a.R, H |-> H])]
      p  == IF IsNone(a.z) THEN s.p ELSE Normalize([j \in 1..Len(fs) |-> RMul(s.p[j], lik[j])])
      r  == Combine([s EXCEPT !.p = p], fs, p)
  IN  [r EXCEPT !.xo = r.x, !.Po = r.P, !.z = a.z]

\* ---- fixed lag smoother.  hist: the filtered estimates so far, and for each the
\* control, transition and noise of the prediction that led to it
\* estimate of x[j] from the measurements up to step t: the RTS smoother over j..t
RECURSIVE LagX(_, _, _, _)
LagX(hist, k, j, xs) ==          \* xs: smoothed estimate of step k + 1
  IF k < j THEN xs
  ELSE LET F  == hist[k + 1].F
           Fx == (F ** hist[k].x) ++ hist[k + 1].c        \* predicted k + 1
           Pp == Sandwich(F, hist[k].P) ++ hist[k + 1].Q
           K  == (hist[k].P ** MT(F)) ** MInv(Pp)
       IN  LagX(hist, k - 1, j, hist[k].x ++ (K ** (xs -- Fx)))
Smoothed(hist, j, t) == LagX(hist, t - 1, j, hist[t].x)

\* ---- ensemble: the particles are the rows of s.sg; the noise drawn for them is what the
\* step shows it to be, and must have the stated first two moments
SampleMean(S) == LET n == Len(S) IN [j \in 1..Cols(S) |-> <<RDiv(RSumTo(LAMBDA i : S[i][j], n), n)>>]
SampleCov(S, m, T, mt) ==            \* N - 1 normalised
  MScale(Frac(1, Len(S) - 1), MT([i \in 1..Len(S) |-> SeqOf(ColOf(S[i]) -- m)]) ** [i \in 1..Len(T) |-> SeqOf(ColOf(T[i]) -- mt)])
\* sample mean and covariance of n draws are within k standard errors of mean and C
Plausible(S, mean, C, k) ==
  LET n == Len(S)
      m == SampleMean(S)
      V == SampleCov(S, mean, S, mean)
  IN  /\ \A j \in 1..Rows(mean) : RLe(RMul(n, RSq(RSub(m[j][1], mean[j][1]))), RAdd(RMul(RSq(k), C[j][j]), Frac(1, RPow(10, 12))))
      /\ \A i, j \in 1..Rows(mean) :
           RLe(RMul(n, RSq(RSub(V[i][j], C[i][j]))),
               RAdd(RMul(RSq(k), RAdd(RMul(C[i][i], C[j][j]), RSq(C[i][j]))), Frac(1, RPow(10, 12))))
=============================================================================
