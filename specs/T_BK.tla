-------------------------------- MODULE T_BK --------------------------------
(* Executions of IMM, MMAE, the fixed lag smoother and the ensemble filter  *)
(* against Banks.                                                           *)
EXTENDS Banks, IOUtils
VARIABLES tr, l, st

Rel == Frac(1, 10000000)
Abs == Frac(1, 10000000)
If(c, name) == IF c THEN {} ELSE {name}
\* the filters of the bank, each against its own step, and with the model it had
FsFail(fs, ofs) ==
  If(Len(fs) = Len(ofs), "filters") \cup
  UNION {Diff([f \in {"x", "P"} |-> fs[i][f]], ofs[i], Rel, Abs) \cup
         Diff([f \in {"F", "Q", "H", "R", "B", "alpha"} |-> fs[i][f]], ofs[i], 0, 0) : i \in 1..Len(fs)}
LikFail(fs, ofs) == UNION {If(Close(fs[i].ll, ofs[i].ll, Rel, Rel), "log_likelihood") \cup
                           If(LikOK(ofs[i].ll, ofs[i].lik), "likelihood") : i \in 1..Len(fs)}
Liks(e) == [i \in 1..Len(e.o.fs) |-> e.o.fs[i].lik]
Top(p, names, e) == Diff([f \in names |-> p[f]], e.o, Rel, Abs)
Unity(w) == If(/\ Close(1, RSumSeq(w), 0, Frac(1, RPow(10, 9))) /\ \A i \in 1..Len(w) : RLe(0, w[i]), "probabilities")

Bank == {"x", "P", "xp", "Pp", "xo", "Po"}
\* mixture covariance is never smaller than the average covariance
Imm(s, e) ==
  LET a == e.a IN
  CASE e.ev = "imm.new" -> LET n == Normalize(a.mu) x == MixX(e.o.fs, n) IN
         Diff([x |-> x, P |-> MixP(e.o.fs, n, x), mu |-> n, M |-> a.M], e.o, Rel, Abs) \cup Unity(e.o.mu)
    [] e.ev = "imm.predict" -> LET p == ImmPredict(s, a) IN FsFail(p.fs, e.o.fs) \cup Top(p, Bank \cup {"mu", "M"}, e) \cup Unity(e.o.mu)
    [] e.ev = "imm.update" -> LET p == ImmUpdate(s, a, Liks(e)) IN
         FsFail(p.fs, e.o.fs) \cup Top(p, Bank \cup {"mu", "M"}, e) \cup Unity(e.o.mu) \cup
         (IF IsNone(a.z) THEN {} ELSE LikFail(p.fs, e.o.fs))
\* one matrix of one member assigned: nothing else changes
SetFail(s, e) ==
  LET a == e.a
      fs == [s.fs EXCEPT ![a.i] = [f \in DOMAIN @ |-> IF f \in DOMAIN a THEN a[f] ELSE @[f]]]
      on == IF Has(s, "mu") THEN Bank \cup {"mu", "M"} ELSE Bank \cup {"p", "z", "H"}
  IN  UNION {Diff([f \in {"x", "P", "F", "Q", "H", "R", "B"} |-> fs[i][f]], e.o.fs[i], 0, 0) : i \in 1..Len(fs)} \cup
      Diff([f \in on |-> s[f]], e.o, 0, 0)
Mmae(s, e) ==
  LET a == e.a IN
  CASE e.ev = "mmae.new" -> Diff([p |-> a.p], e.o, Rel, Abs)
    [] e.ev = "mmae.predict" -> LET p == MmaePredict(s, a) IN FsFail(p.fs, e.o.fs) \cup Diff([H |-> s.H], e.o, 0, 0) \cup Top(p, Bank \cup {"p"}, e) \cup Unity(e.o.p)
    [] e.ev = "mmae.update" -> LET p == MmaeUpdate(s, a, Liks(e)) IN
         FsFail(p.fs, e.o.fs) \cup Diff([H |-> s.H], e.o, 0, 0) \cup Top(p, Bank \cup {"p", "z"}, e) \cup Unity(e.o.p) \cup
         (IF IsNone(a.z) THEN {} ELSE LikFail(p.fs, e.o.fs))

\* fixed lag: the state carries the history of filtered estimates
LagStep(s, z, u) ==
  LET c  == IF IsNone(u) THEN Zeros(Rows(s.x), 1) ELSE s.B ** u
      x  == (s.F ** s.x) ++ c
      P  == Sandwich(s.F, s.P) ++ s.Q
      S  == Sandwich(s.H, P) ++ s.R
      K  == (P ** MT(s.H)) ** MInv(S)
      y  == z -- (s.H ** x)
      IKH == Eye(Rows(s.x)) -- (K ** s.H)
  IN  [x |-> x ++ (K ** y), P |-> Sandwich(IKH, P) ++ Sandwich(K, s.R), y |-> y, S |-> S, c |-> c, F |-> s.F, Q |-> s.Q]
LagFail(hist, N, xs) ==       \* every estimate the lag has reached, or is on its way through
  If(Len(xs) = Len(hist), "number of estimates") \cup
  UNION {If(Close(Smoothed(hist, j, RInt(RMin(Len(hist), j + N - 1))), xs[j], Rel, Abs), "smoothed estimate") : j \in N..Len(hist)}
RECURSIVE LagRun(_, _, _, _)
LagRun(s, a, i, acc) ==
  IF i > Len(a.zs) THEN acc
  ELSE LET r == LagStep(s, a.zs[i], At(a.us, i)) IN LagRun([s EXCEPT !.x = r.x, !.P = r.P], a, i + 1, Append(acc, r))
Lag(s, e) ==
  LET a == e.a IN
  CASE e.ev = "lag.new" -> {}
    [] e.ev = "lag.smooth" -> LET r == LagStep(s, a.z, a.u)
                                  h == Append(s.hist, [x |-> e.o.x, P |-> e.o.P, c |-> r.c, F |-> s.F, Q |-> s.Q])
                              IN  Diff([x |-> r.x, P |-> r.P, y |-> r.y, S |-> r.S], e.o, Rel, Abs) \cup LagFail(h, a.N, e.o.xs)
    \* the model changes between two steps
    [] e.ev = "lag.set" -> Diff([f \in {"x", "P", "F", "Q", "H", "R", "B"} |-> IF f \in DOMAIN a THEN a[f] ELSE s[f]], e.o, 0, 0)
    [] e.ev = "lag.batch" -> LET h == LagRun(s, a, 1, <<>>) IN
         If(Close([i \in 1..Len(h) |-> h[i].x], e.o.xh, Rel, Abs), "filtered estimate") \cup LagFail(h, a.N, e.o.xs)

Hx(a, x) == (a.H ** x) ++ MScale(a.c, a.Gh ** MHad(x, x))
Fxx(a, x) == (a.F ** x) ++ MScale(RMul(a.dt, a.c), a.G ** MHad(x, x))
Sigma8 == 8
Moments(S, mean, C, name) == If(Len(S) < 100 \/ Plausible(S, mean, C, Sigma8), name)
\* the steps are recovered from the particles with an error of their rounding, which must be small beside the noise
Recoverable(pK, S, R) ==
  \A i \in 1..Rows(R) : \A j \in 1..Cols(pK), q \in {1, Len(S)} : \A r \in 1..Len(S[q]) :
     RLt(RMul(RPow(10, -20), RMul(RSq(pK[i][j]), RSq(S[q][r]))), R[i][i])
Ens(s, e) ==
  LET a == e.a IN
  CASE e.ev = "ens.new" -> If(Len(e.o.sg) = a.N, "number of particles") \cup
         Diff([x |-> a.x, P |-> a.P, xp |-> a.x, Pp |-> a.P, xo |-> a.x, Po |-> a.P], e.o, Rel, Abs) \cup Moments(e.o.sg, a.x, a.P, "initial ensemble")
    [] e.ev = "ens.predict" ->
         LET f == [i \in 1..Len(s.sg) |-> SeqOf(Fxx(a, ColOf(s.sg[i])))]
             m == SampleMean(e.o.sg)
             P == SampleCov(e.o.sg, m, e.o.sg, m)
         IN  Diff([x |-> m, P |-> P, xp |-> m, Pp |-> P, xo |-> s.xo, Po |-> s.Po], e.o, Rel, Abs) \cup
             Moments(e.o.sg -- f, Zeros(Rows(s.x), 1), a.Q, "process noise")
             \cup (IF Close(a.Q, Zeros(Rows(a.Q), Rows(a.Q)), 0, 0) /\ ~Close(f, e.o.sg, Rel, Abs) THEN {"propagation"} ELSE {})
    [] e.ev = "ens.update" ->
         IF IsNone(a.z) THEN Diff([x |-> s.x, P |-> s.P, xo |-> s.x, Po |-> s.P, sg |-> s.sg, z |-> "ALLNONE"], e.o, 0, 0)
         ELSE
         LET n  == Len(s.sg)
             R  == Cov(Or(a.R, a.Rown), Rows(a.z))
             h  == [i \in 1..n |-> SeqOf(Hx(a, ColOf(s.sg[i])))]
             zm == SampleMean(h)
             S  == SampleCov(h, zm, h, zm) ++ R
             SI == SInv(a, S)
             K  == SampleCov(s.sg, s.x, h, zm) ** SI
             P  == s.P -- Sandwich(K, S)
             m  == SampleMean(e.o.sg)
             \* the noise that each particle saw: K (z + v - h) is the step it made
             pK == MInv(MT(K) ** K) ** MT(K)
             v  == [i \in 1..n |-> SeqOf(((pK ** (ColOf(e.o.sg[i]) -- ColOf(s.sg[i]))) -- a.z) ++ ColOf(h[i]))]
         IN  Diff([x |-> m, P |-> P, xo |-> m, Po |-> P, K |-> K, S |-> S, SI |-> SI, z |-> a.z, xp |-> s.xp, Pp |-> s.Pp], e.o, Rel, Abs) \cup
             (IF Rows(a.z) > Rows(s.x) \/ ~IsRat(pK[1][1]) \/ ~Recoverable(pK, s.sg, R) THEN {}
              ELSE If(\A i \in 1..n : Close(ColOf(e.o.sg[i]) -- ColOf(s.sg[i]), K ** ((a.z ++ ColOf(v[i])) -- ColOf(h[i])), Rel, Frac(1, 100000)), "particle step")
                   \cup Moments(v, Zeros(Rows(a.z), 1), R, "measurement noise"))

Fails(s, e) ==
  CASE e.ev \in {"imm.new", "imm.predict", "imm.update"} -> Imm(s, e)
    [] e.ev \in {"mmae.new", "mmae.predict", "mmae.update"} -> Mmae(s, e)
    [] e.ev \in {"imm.set", "mmae.set"} -> SetFail(s, e)
    [] e.ev \in {"lag.new", "lag.smooth", "lag.batch", "lag.set"} -> Lag(s, e)
    [] e.ev \in {"ens.new", "ens.predict", "ens.update"} -> Ens(s, e)
    [] e.ev \in {"imm.copied", "mmae.copied"} -> SetFail(s, [e EXCEPT !.a = [i |-> 1]])
    [] e.ev = "lag.copied" -> Diff([f \in DOMAIN s \ {"hist"} |-> s[f]], e.o, 0, 0)
    [] e.ev = "ens.copied" -> Diff(s, e.o, 0, 0)
    [] e.ev = "owned" -> If(Close(e.a.before, e.o.after, 0, 0), "caller's array changed")
    [] OTHER -> {"unknown event"}

Failing(s, e) == IF e.x # "" THEN {"exception"} ELSE IF ~e.chk THEN {} ELSE Fails(s, e)
After(s, e) ==
  CASE e.ev = "lag.smooth" -> [s EXCEPT !.x = e.o.x, !.P = e.o.P,
                                        !.hist = Append(@, [x |-> e.o.x, P |-> e.o.P, c |-> LagStep(s, e.a.z, e.a.u).c, F |-> s.F, Q |-> s.Q])]
    [] e.ev = "lag.copied" -> s
    [] e.ev = "lag.set" -> [hist |-> s.hist] @@ e.o
    [] e.ev = "lag.new" -> [hist |-> <<>>] @@ e.o
    [] Has(e.o, "x") -> e.o
    [] OTHER -> s
TL == INSTANCE TraceLoop
Spec == TL!TraceSpec
View == <<tr, l>>
=============================================================================
