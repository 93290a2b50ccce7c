------------------------------- MODULE MC_ENS -------------------------------
(***************************************************************************)
(* The ensemble filter with chosen perturbations: three members, every     *)
(* sequence of predictions and updates, perturbations that sum to zero.    *)
(* Then the ensemble moves exactly as the Kalman filter with the ensemble's*)
(* own statistics does.                                                    *)
(***************************************************************************)
EXTENDS Banks
CONSTANT Depth
VARIABLES sg, k
vars == <<sg, k>>
Is(a, b) == Close(a, b, 0, 0)
F == <<<<1, 1>>, <<0, 1>>>>
H == <<<<1, 0>>>>
Noise == <<Zeros(4, 2), <<<<1, 0>>, <<-1, 0>>, <<0, 2>>, <<0, -2>>>>, <<<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>>>>>
ZNoise == <<<<<<0>>, <<0>>, <<0>>, <<0>>>>, <<<<1>>, <<-1>>, <<1>>, <<-1>>>>>>
Init == sg = <<<<1, 0>>, <<-1, 2>>, <<3, 1>>, <<0, -1>>>> /\ k = 0
m == SampleMean(sg)
P == SampleCov(sg, m, sg, m)
Hs == sg ** MT(H)
zm == SampleMean(Hs)
S == SampleCov(Hs, zm, Hs, zm) ++ <<<<Frac(1, 2)>>>>
K == SampleCov(sg, m, Hs, zm) ** MInv(S)
Predicted(q) == (sg ** MT(F)) ++ q
Updated(z, q) == sg ++ ((Const(4, 1, z) ++ q -- Hs) ** MT(K))
Next == k < Depth /\ k' = k + 1 /\ ((\E i \in 1..3 : sg' = Predicted(Noise[i])) \/ (\E i \in 1..2, z \in {1, -4} : sg' = Updated(z, ZNoise[i])))
Spec == Init /\ [][Next]_vars
\* the gain is the Kalman gain of the ensemble's statistics
Statistics == /\ Is(P, MT(P)) /\ IsPSD(P, 0)
              /\ Is(Sandwich(H, P) ++ <<<<Frac(1, 2)>>>>, S) /\ Is((P ** MT(H)) ** MInv(S), K)
\* the sample covariance is right on average: over all samples of two or three members of a population
Pop == <<<<1, 0>>, <<-2, 3>>, <<Frac(1, 2), -1>>>>
Sample(f) == [i \in DOMAIN f |-> Pop[f[i]]]
RECURSIVE Pile(_)
Pile(D) == LET f == CHOOSE f \in D : TRUE
               q == Sample(f)  r == SampleMean(q)  c == SampleCov(q, r, q, r)
           IN  IF D = {f} THEN <<r, c>> ELSE LET b == Pile(D \ {f}) IN <<b[1] ++ r, b[2] ++ c>>
Unbiased == k > 0 \/ \A n \in {2, 3} :
  LET D == [1..n -> 1..3]  b == Pile(D)  w == Frac(1, 3^n)
      mean == MScale(Frac(1, 3), MSumTo(LAMBDA i : ColOf(Pop[i]), 3))
  IN  /\ Is(mean, MScale(w, b[1]))
      /\ Is(MScale(Frac(1, 3), MSumTo(LAMBDA i : (ColOf(Pop[i]) -- mean) ** MT(ColOf(Pop[i]) -- mean), 3)), MScale(w, b[2]))
Moves ==
  /\ \A i \in 1..3 : Is(F ** m, SampleMean(Predicted(Noise[i])))
  /\ Is(Sandwich(F, P), LET q == Predicted(Noise[1]) IN SampleCov(q, SampleMean(q), q, SampleMean(q)))
  /\ \A i \in 1..2, z \in {1, -4} : Is(m ++ (K ** (<<<<z>>>> -- (H ** m))), SampleMean(Updated(z, ZNoise[i])))
  \* P - K S K' is the covariance the members have on average over the measurement noise
  /\ Is(P -- Sandwich(K, S), Sandwich(Eye(2) -- (K ** H), P) ++ Sandwich(K, <<<<Frac(1, 2)>>>>))
=============================================================================
