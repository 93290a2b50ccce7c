------------------------------- MODULE MC_BK -------------------------------
(***************************************************************************)
(* Banks of filters explored: two models, every sequence of predictions,   *)
(* measurements and missing measurements, for several switching matrices   *)
(* and initial probabilities.                                              *)
(***************************************************************************)
EXTENDS Banks
CONSTANT Depth
VARIABLES imm, mm, twin, single, sum, chain, k
vars == <<imm, mm, twin, single, sum, chain, k>>
Tol == Frac(1, RPow(10, 30))
Is(a, b) == Close(a, b, Tol, Tol)

F1 == <<<<1, 1>>, <<0, 1>>>>
F2 == <<<<1, 0>>, <<0, Frac(1, 2)>>>>
Filt(F, q) == [x |-> <<<<1>>, <<-1>>>>, P |-> <<<<2, 1>>, <<1, 3>>>>, F |-> F, Q |-> MScale(q, Eye(2)), B |-> <<<<Frac(1, 2)>>, <<1>>>>,
               H |-> <<<<1, 0>>>>, R |-> <<<<1>>>>, alpha |-> 1, M |-> Zeros(2, 1), xp |-> 0, Pp |-> 0, xo |-> 0, Po |-> 0,
               y |-> <<<<0>>>>, S |-> <<<<1>>>>, SI |-> <<<<1>>>>, K |-> Zeros(2, 1), z |-> "NONE", ll |-> 0, mah |-> 0]
Switch == <<<<<<Frac(9, 10), Frac(1, 10)>>, <<Frac(1, 5), Frac(4, 5)>>>>, <<<<1, 0>>, <<0, 1>>>>, <<<<Frac(1, 2), Frac(1, 2)>>, <<Frac(1, 2), Frac(1, 2)>>>>,
            <<<<Frac(9, 10), Frac(1, 10)>>, <<0, 1>>>>>>    \* the last knows no way back
Probs == <<<<Frac(1, 2), Frac(1, 2)>>, <<Frac(1, 10), Frac(9, 10)>>, <<0, 1>>>>
Zs == <<<<<<1>>>>, <<<<-6>>>>, "NONE">>
Us == <<"NONE", <<<<1>>>>>>

Bank(fs, mu, M) == [fs |-> fs, mu |-> mu, p |-> mu, M |-> M, x |-> MixX(fs, mu), P |-> MixP(fs, mu, MixX(fs, mu)), H |-> "NONE",
                    xp |-> 0, Pp |-> 0, xo |-> 0, Po |-> 0, z |-> "NONE"]
Pair == <<Filt(F1, 1), [Filt(F2, Frac(1, 3)) EXCEPT !.x = <<<<0>>, <<2>>>>]>>
Init == \E i \in 1..Len(Switch), j \in 1..Len(Probs) :
          /\ imm = Bank(Pair, Probs[j], Switch[i])
          /\ mm = Bank(Pair, Probs[j], Switch[i])
          /\ twin = Bank(<<Filt(F1, 1), Filt(F1, 1)>>, Probs[j], Switch[i])
          /\ single = Filt(F1, 1)
          /\ sum = <<0, 0>>
          /\ chain = Probs[j]
          /\ k = 0
Lik(fs, z) == [j \in 1..Len(fs) |-> IF IsNone(z) THEN 1 ELSE RExp(Update(fs[j], Meas(z)).ll)]
NoOver(z) == [z |-> z, H |-> "NONE", R |-> "NONE"]
DoPredict(u) ==
  /\ imm' = ImmPredict(imm, [u |-> u])
  /\ mm' = MmaePredict(mm, [u |-> u])
  /\ twin' = ImmPredict(twin, [u |-> u])
  /\ single' = Predict(single, NoKw(u))
  /\ sum' = sum
  /\ chain' = chain
DoUpdate(z) ==
  /\ imm' = ImmUpdate(imm, NoOver(z), Lik(imm.fs, z))
  /\ mm' = LET q == [mm EXCEPT !.H = mm.fs[1].H] IN MmaeUpdate(q, NoOver(z), Lik(mm.fs, z))
  /\ twin' = ImmUpdate(twin, NoOver(z), Lik(twin.fs, z))
  /\ single' = Update(single, Meas(z))
  /\ chain' = IF IsNone(z) THEN chain ELSE SeqOf(MT(imm.M) ** ColOf(chain))
  /\ sum' = IF IsNone(z) THEN sum ELSE [j \in 1..2 |-> RAdd(sum[j], mm'.fs[j].ll)]
Next == k < Depth /\ k' = k + 1 /\ ((\E i \in 1..Len(Us) : DoPredict(Us[i])) \/ (\E i \in 1..Len(Zs) : DoUpdate(Zs[i])))
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Dist(w) == Is(1, RSumSeq(w)) /\ \A j \in 1..Len(w) : RLe(0, w[j])
Probabilities == Dist(imm.mu) /\ Dist(mm.p) /\ Dist(Cbar(imm.mu, imm.M))
\* mixing moves probability between the models, but the mixture as a whole keeps its mean and covariance
MixKeeps ==
  LET c == Cbar(imm.mu, imm.M)
      mx == Mixed(imm)
      x0 == MixX(imm.fs, imm.mu)  x1 == MixX(mx, c)
  IN  Is(x0, x1) /\ Is(MixP(imm.fs, imm.mu, x0), MixP(mx, c, x1))
\* columns of the mixing probabilities are distributions over the origin
OmegaOK == LET om == Omega(imm.mu, imm.M) IN \A j \in 1..2 : Dist([i \in 1..2 |-> om[i][j]])
Spread == Is(imm.P, MT(imm.P)) /\ IsPSD(imm.P, Tol) /\ IsPSD(mm.P, Tol)
\* identical models are one model, whatever the switching
Twins == Is(twin.x, single.x) /\ Is(twin.P, single.P) /\ \A j \in 1..2 : Is(twin.fs[j].x, single.x) /\ Is(twin.fs[j].P, single.P)
\* and their probabilities are those of the Markov chain alone
Markov == Is(chain, twin.mu)
\* first and second moments of the combination are those of the mixture
Moments == LET second(b, w) == MSumTo(LAMBDA i : MScale(w[i], b.fs[i].P ++ (b.fs[i].x ** MT(b.fs[i].x))), 2)
               first(b, w) == MSumTo(LAMBDA i : MScale(w[i], b.fs[i].x), 2)
           IN  /\ Is(imm.x, first(imm, imm.mu)) /\ Is(imm.P ++ (imm.x ** MT(imm.x)), second(imm, imm.mu))
               /\ Is(mm.x, first(mm, mm.p)) /\ Is(mm.P ++ (mm.x ** MT(mm.x)), second(mm, mm.p))
\* the probability of a model is its prior times its likelihood of the whole record, normalised
MmaeBayes == \E j \in 1..Len(Probs) :
   LET m == RMax(sum[1], sum[2])
       w == Normalize([i \in 1..2 |-> RMul(Probs[j][i], RExp(RSub(sum[i], m)))])
   IN  Close(w, mm.p, Tol, Tol)
\* without switching the interacting bank is the adaptive bank
NoSwitch == Is(imm.M, Eye(2)) => /\ Is(imm.mu, mm.p) /\ Is(imm.x, mm.x) /\ Is(imm.P, mm.P)
\* exchanging the models exchanges the results
Swap(b) == [b EXCEPT !.fs = <<b.fs[2], b.fs[1]>>, !.mu = <<b.mu[2], b.mu[1]>>, !.M = <<<<b.M[2][2], b.M[2][1]>>, <<b.M[1][2], b.M[1][1]>>>>]
Order == LET a == ImmPredict(imm, [u |-> "NONE"])  b == ImmPredict(Swap(imm), [u |-> "NONE"])
         IN  Is(a.x, b.x) /\ Is(a.P, b.P) /\ Is(a.fs[1].x, b.fs[2].x)
=============================================================================
