------------------------------- MODULE MC_RS -------------------------------
(***************************************************************************)
(* Resampling: all weights k/12 of four particles, and all draws on a grid *)
(* fine enough to see every possible outcome.  The sweep that selects by   *)
(* sorted positions must satisfy the definitions of Discrete.tla, and draw *)
(* every particle N w times on average over the grid.                      *)
(***************************************************************************)
EXTENDS Discrete, FiniteSets
CONSTANT Depth
VARIABLES c, k
vars == <<c, k>>
n == 4
D == 12
Grid == 2 * D          \* the positions (i - 1 + u) / n with u = (2g - 1) / (2 Grid)
Init == /\ k = Depth
        /\ c \in {q \in [1..n -> 0..D] : q[1] + q[2] + q[3] + q[4] = D}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
w == [i \in 1..n |-> Frac(c[i], D)]
U(g) == Frac(2 * g - 1, 2 * Grid)
Pos(us) == [i \in 1..n |-> RDiv(RAdd(i - 1, us[i]), n)]
Sys(g) == Sweep(Cum(w), Pos([i \in 1..n |-> U(g)]), 1, 1)
\* a few ways to draw the strata separately
Mix(g, m) == [i \in 1..n |-> U(((g * (1 + ((i * m) % 5))) % Grid) + 1)]
Str(g, m) == Sweep(Cum(w), Pos(Mix(g, m)), 1, 1)
SweepOK == \A g \in 1..Grid : /\ ResampleOK("systematic", w, Sys(g), 0) /\ ResampleOK("stratified", w, Sys(g), 0)
                              /\ \A m \in 1..2 : ResampleOK("stratified", w, Str(g, m), 0)
\* every particle is drawn floor or ceil of N w times by systematic resampling, and N w times on average
Average == \A j \in 1..n :
  /\ \A g \in 1..Grid : Count(Sys(g), j) \in {(n * c[j]) \div D, (n * c[j] + D - 1) \div D}
  /\ REq(RSumTo(LAMBDA g : Count(Sys(g), j), Grid), RMul(Grid, Frac(n * c[j], D)))
\* residual resampling: floor(N w) copies, the rest drawn by the fractions: N w on average
Fl(j) == (n * c[j]) \div D
RECURSIVE SumN(_, _)
SumN(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumN(f, i - 1)
Rest == n - SumN([j \in 1..n |-> Fl(j)], n)
ResidualAverage == \A j \in 1..n :
  LET frac == RSub(RMul(n, w[j]), Fl(j)) IN
  /\ RLe(0, frac) /\ RLt(frac, 1)
  /\ Rest > 0 => REq(RAdd(Fl(j), RMul(Rest, RDiv(frac, Rest))), RMul(n, w[j]))
  /\ Rest = RInt(RSumTo(LAMBDA i : RSub(RMul(n, w[i]), Fl(i)), n))
=============================================================================
