------------------------------- MODULE MC_DB -------------------------------
(***************************************************************************)
(* The histogram filter explored, against the sum over all paths: the      *)
(* joint probability of a path of cells and of everything observed.        *)
(***************************************************************************)
EXTENDS Discrete, FiniteSets
CONSTANT Depth
VARIABLES p, w, k
vars == <<p, w, k>>
Is(a, b) == Close(a, b, 0, 0)
n == 3
Prior == <<Frac(1, 2), Frac(1, 3), Frac(1, 6)>>
Likes == <<<<1, Frac(1, 2), Frac(1, 10)>>, <<0, 3, 1>>>>
Kernels == <<<<Frac(1, 10), Frac(7, 10), Frac(1, 5)>>, <<Frac(1, 4), Frac(3, 4)>>, <<1>>>>
Offsets == <<0, 1, -2, 4>>
\* w[i]: sum over all paths that end in cell i of prior x transitions x likelihoods; `paths` carries them one by one
Init == p = Prior /\ w = [path \in [1..1 -> 1..n] |-> Prior[path[1]]] /\ k = 0
Trans(off, ker, i, j) ==       \* probability to go from cell i to cell j on the circle
  LET c == (Len(ker) \div 2) + 1 IN
  RSumTo(LAMBDA q : IF (i + off + q - c - j) % n = 0 THEN ker[q] ELSE 0, Len(ker))
LenOf(f) == Cardinality(DOMAIN CHOOSE q \in DOMAIN f : TRUE)
Move(off, ker) ==
  /\ p' = DPredict(p, off, ker, TRUE, 0)
  /\ w' = LET m == LenOf(w) IN [path \in [1..(m + 1) -> 1..n] |->
             RMul(w[[t \in 1..m |-> path[t]]], Trans(off, ker, path[m], path[m + 1]))]
See(like) ==
  /\ p' = DUpdate(like, p)
  /\ w' = LET m == LenOf(w) IN [path \in DOMAIN w |-> RMul(w[path], like[path[m]])]
Next == k < Depth /\ k' = k + 1 /\ ((\E i \in 1..Len(Offsets), j \in 1..Len(Kernels) : Move(Offsets[i], Kernels[j])) \/ (\E i \in 1..Len(Likes) : See(Likes[i])))
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN RAdd(f[a], SumOver(S \ {a}, f))
PathSum == LET m == LenOf(w)
               e == [i \in 1..n |-> SumOver({q \in DOMAIN w : q[m] = i}, w)]
           IN  Is(Normalize(e), p)
Sums == Is(1, Total(p)) /\ \A i \in 1..n : RLe(0, p[i])
\* two moves in a row are one move with the offsets added and the kernels convolved
Conv(a, b) == [i \in 1..(Len(a) + Len(b) - 1) |-> RSumTo(LAMBDA j : IF i - j + 1 \in 1..Len(b) THEN RMul(a[j], b[i - j + 1]) ELSE 0, Len(a))]
Compose == \A i, j \in 1..Len(Offsets) :
  Is(DPredict(DPredict(p, Offsets[i], Kernels[1], TRUE, 0), Offsets[j], Kernels[3], TRUE, 0),
     DPredict(p, Offsets[i] + Offsets[j], Conv(Kernels[1], Kernels[3]), TRUE, 0)) /\
  Is(DPredict(DPredict(p, Offsets[i], Kernels[1], TRUE, 0), Offsets[j], Kernels[1], TRUE, 0),
     DPredict(p, Offsets[i] + Offsets[j], Conv(Kernels[1], Kernels[1]), TRUE, 0))
\* moving commutes with turning the circle
Turn(q) == [i \in 1..n |-> q[(i % n) + 1]]
Commute == \A i \in 1..Len(Offsets), j \in 1..Len(Kernels) :
  Is(Turn(DPredict(p, Offsets[i], Kernels[j], TRUE, 0)), DPredict(Turn(p), Offsets[i], Kernels[j], TRUE, 0))
=============================================================================
