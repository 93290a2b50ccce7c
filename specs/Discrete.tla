------------------------------ MODULE Discrete ------------------------------
(***************************************************************************)
(* Discrete beliefs: the histogram (discrete Bayes) filter, and resampling *)
(* of weighted particles.                                                  *)
(*                                                                         *)
(* A belief is a tuple of probabilities over the cells 1..n of a line or   *)
(* of a circle.  A weight vector is one over the particles 1..n.           *)
(***************************************************************************)
EXTENDS Conform

Total(p) == RSumSeq(p)
Normalize(p) == LET s == Total(p) IN [i \in 1..Len(p) |-> RDiv(p[i], s)]

\* Bayes' rule
DUpdate(like, prior) == Normalize([i \in 1..Len(prior) |-> RMul(like[i], prior[i])])

\* the cell i of the infinite line that p stands for
Cell(p, i, wrap, cval) == LET n == Len(p) IN
  IF wrap THEN p[((i - 1) % n) + 1] ELSE IF i \in 1..n THEN p[i] ELSE cval
\* the motion: by `offset`, and by j - centre with probability kernel[j]
Shift(p, offset, wrap, cval) == [i \in 1..Len(p) |-> Cell(p, i - offset, wrap, cval)]
DPredict(p, offset, kernel, wrap, cval) ==
  LET s == Shift(p, offset, wrap, cval)
      c == (Len(kernel) \div 2) + 1
  IN  [i \in 1..Len(p) |-> RSumTo(LAMBDA j : RMul(kernel[j], Cell(s, i - (j - c), wrap, cval)), Len(kernel))]

------------------------------------------------------------------------------
\* resampling: which results are possible for some draw
RECURSIVE CumTo(_, _)
CumTo(w, j) == IF j = 0 THEN 0 ELSE RAdd(CumTo(w, j - 1), w[j])
Cum(w) == [j \in 1..Len(w) |-> CumTo(w, j)]
Count(idx, j) == Len(SelectSeq(idx, LAMBDA k : k = j))
Sorted(idx) == \A i \in 1..(Len(idx) - 1) : idx[i] <= idx[i + 1]
\* [lo, hi): where a position must lie to select particle j; doubles blur it by eps
Lo(C, j) == IF j = 1 THEN 0 ELSE C[j - 1]
Hi(C, j) == C[j]

\* one position in each of n equal strata
StratifiedOK(w, idx, eps) ==
  LET n == Len(w) C == Cum(w) IN
  /\ Sorted(idx)
  /\ \A i \in 1..n : RLe(Lo(C, idx[i]), RAdd(Frac(i, n), eps)) /\ RLe(RSub(Frac(i - 1, n), eps), Hi(C, idx[i]))
\* the same offset u in [0,1) in every stratum: some u fits all of them
SystematicOK(w, idx, eps) ==
  LET n == Len(w) C == Cum(w)
      L(i) == RSub(RMul(n, RSub(Lo(C, idx[i]), eps)), i - 1)
      H(i) == RSub(RMul(n, RAdd(Hi(C, idx[i]), eps)), i - 1)
  IN  /\ Sorted(idx)
      /\ \A i \in 1..n : RLe(L(i), 1) /\ RLe(0, H(i))
      /\ \A i, k \in 1..n : RLe(L(i), H(k))
\* floor(n w_j) copies of j for certain, the rest at random among the fractions; a product
\* that is a whole number but for rounding may be taken for either side of it
Whole(x) == REq(x, RFloor(x))
ResidualOK(w, idx, eps) ==
  \A j \in 1..Len(w) : LET f == RMul(Len(w), w[j]) IN
    IF Whole(f) THEN REq(f, Count(idx, j)) ELSE RLe(RFloor(RSub(f, eps)), Count(idx, j))
\* no product is that close to a whole number without being one
Clear(w, eps) == \A j \in 1..Len(w) : LET f == RMul(Len(w), w[j]) IN
  Whole(f) \/ (REq(RFloor(RAdd(f, eps)), RFloor(f)) /\ REq(RFloor(RSub(f, eps)), RFloor(f)))
MultinomialOK(w, idx) == \A i \in 1..Len(idx) : RLt(0, w[idx[i]])

ResampleOK(alg, w, idx, eps) ==
  /\ Len(idx) = Len(w)
  /\ \A i \in 1..Len(idx) : idx[i] \in 1..Len(w)
  /\ CASE alg = "stratified" -> StratifiedOK(w, idx, eps)
       [] alg = "systematic" -> SystematicOK(w, idx, eps)
       [] alg = "residual" -> ResidualOK(w, idx, eps)
       [] OTHER -> MultinomialOK(w, idx)

\* unbiased: over `runs` resamplings particle j is drawn n w_j times on average.
\* within z standard deviations of independent draws, and 10 for the very rare ones
UnbiasedOK(w, total, runs, z) ==
  LET n == Len(w) IN
  \A j \in 1..n :
    LET v == RMax(RMul(RMul(n, runs), RMul(w[j], RSub(1, w[j]))), 0)
    IN  RLe(RAbs(RSub(total[j], RMul(RMul(n, runs), w[j]))), RAdd(RMul(z, RSqrt(v)), 10))

\* the draws are independent of each other.  seen: the outcomes [c |-> copies of each particle, n |-> how often]
\* residual and multinomial: all free draws fall on the same particle as often as independent ones do
RECURSIVE IPow(_, _)
IPow(x, k) == IF k = 0 THEN 1 ELSE RMul(x, IPow(x, k - 1))
FloorOf(alg, w, eps) == [j \in 1..Len(w) |-> IF alg = "residual" THEN RInt(RFloor(RAdd(RMul(Len(w), w[j]), eps))) ELSE 0]
RECURSIVE ISumTo(_, _)
ISumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + ISumTo(f, i - 1)
AgreeOK(alg, w, seen, runs, eps, z) ==
  LET n == Len(w)
      fl == FloorOf(alg, w, eps)
      R == n - ISumTo(fl, n)
      p(j) == RDiv(RMax(RSub(RMul(n, w[j]), fl[j]), 0), R)
      q == RSumTo(LAMBDA j : IPow(p(j), R), n)
      all == ISumTo([i \in 1..Len(seen) |-> IF \E j \in 1..n : seen[i].c[j] = fl[j] + R THEN seen[i].n ELSE 0], Len(seen))
      v == RMax(RMul(runs, RMul(q, RSub(1, q))), 0)
  IN  R >= 2 /\ (alg # "residual" \/ Clear(w, eps)) => RLe(RAbs(RSub(all, RMul(runs, q))), RAdd(RMul(z, RSqrt(v)), 10))
\* stratified: every stratum has a draw of its own, so that with many runs some outcome needs two different offsets;
\* looked for when a particle's bound lies well inside each of two strata (offsets that only
\* fit on the very boundary do not count as one offset)
Inside(w, i) == \E j \in 1..Len(w) : LET u == RSub(RMul(Len(w), Cum(w)[j]), i - 1) IN RLe(Frac(1, 5), u) /\ RLe(u, Frac(4, 5))
RECURSIVE Indexes(_, _)
Indexes(c, j) == IF j = 0 THEN <<>> ELSE Indexes(c, j - 1) \o [i \in 1..c[j] |-> j]
OwnDrawsOK(w, seen, eps) ==
  (\E i, k \in 1..Len(w) : i # k /\ Inside(w, i) /\ Inside(w, k)) =>
    \E i \in 1..Len(seen) : seen[i].n > 1 /\ ~SystematicOK(w, Indexes(seen[i].c, Len(w)), RSub(0, eps))
\* when the fractions are large the result is not the same each time
VariesOK(w, seen) ==
  Len(seen) > 1 \/ \A j \in 1..Len(w) : LET f == RMul(Len(w), w[j]) fr == RSub(f, RFloor(f)) IN RLt(fr, Frac(1, 20)) \/ RLt(Frac(19, 20), fr)

\* the two pointer sweep that selects by sorted positions (what the code does)
RECURSIVE Sweep(_, _, _, _)
Sweep(C, pos, i, j) ==
  IF i > Len(pos) THEN <<>>
  ELSE IF j = Len(C) \/ RLt(pos[i], C[j]) THEN <<j>> \o Sweep(C, pos, i + 1, j)
  ELSE Sweep(C, pos, i, j + 1)
=============================================================================
