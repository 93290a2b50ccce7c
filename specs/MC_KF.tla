------------------------------- MODULE MC_KF -------------------------------
(***************************************************************************)
(* The linear filter of KF.tla, explored: every sequence of predictions,   *)
(* updates, partial and missing measurements over a small alphabet of      *)
(* models, up to Depth steps, in exact arithmetic.                         *)
(*                                                                         *)
(* Beside the filter s, the joint Gaussian of ALL states of the history is *)
(* carried (J.m, J.C: mean and covariance of x_0, x_1, ... stacked, before *)
(* any measurement), together with all the measurements taken.  What a     *)
(* Kalman filter, a smoother, and a likelihood ought to be is defined by   *)
(* conditioning this joint distribution, once, on all the measurements:    *)
(* no recursion is involved.                                               *)
(***************************************************************************)
EXTENDS Banks
CONSTANT Depth
VARIABLES s, J, ms, inf, log, k
Is(a, b) == Close(a, b, 0, 0)       \* equal numbers, integers or fractions
vars == <<s, J, ms, inf, log, k>>

N == 2
F1 == <<<<1, 1>>, <<0, 1>>>>
F2 == <<<<1, Frac(1, 2)>>, <<-1, Frac(1, 3)>>>>
B0 == <<<<Frac(1, 2)>>, <<1>>>>
Q1 == <<<<1, Frac(1, 2)>>, <<Frac(1, 2), 1>>>>
Q0 == Zeros(2, 2)
Steps == <<[F |-> F1, Q |-> Q1, u |-> <<<<0>>>>], [F |-> F2, Q |-> Q0, u |-> <<<<1>>>>],
          [F |-> F2, Q |-> Q1, u |-> <<<<-2>>>>]>>
Sights == <<[z |-> <<<<1>>>>, H |-> <<<<1, 0>>>>, R |-> <<<<1>>>>],
           [z |-> <<<<-3>>>>, H |-> <<<<1, -1>>>>, R |-> <<<<Frac(1, 100)>>>>],
           [z |-> <<<<2>>, <<Frac(1, 2)>>>>, H |-> <<<<1, 1>>, <<0, 2>>>>, R |-> <<<<2, Frac(1, 2)>>, <<Frac(1, 2), 1>>>>],
           [z |-> <<<<2>>, <<-1>>>>, H |-> <<<<1, 0>>, <<1, 1>>>>, R |-> <<<<2, 0>>, <<0, 3>>>>],
           [z |-> "NONE", H |-> <<<<1, 0>>>>, R |-> <<<<1>>>>]>>
X0 == <<<<1>>, <<-1>>>>
P0 == <<<<2, 1>>, <<1, 3>>>>

Start == [x |-> X0, P |-> P0, F |-> F1, Q |-> Q1, B |-> B0, H |-> <<<<1, 0>>>>, R |-> <<<<1>>>>, alpha |-> 1,
          M |-> Zeros(2, 1), xp |-> X0, Pp |-> P0, xo |-> X0, Po |-> P0, y |-> <<<<0>>>>, S |-> <<<<1>>>>, SI |-> <<<<1>>>>,
          K |-> Zeros(2, 1), z |-> "NONE", ll |-> 0, mah |-> 0]
Init == /\ s = Start
        /\ J = [m |-> X0, C |-> P0]
        /\ ms = <<>>                      \* measurements: [z H R at], `at` the index of the state measured
        /\ inf = [Pi |-> MInv(P0), x |-> X0]
        /\ log = <<[u |-> "first", x |-> X0, P |-> P0, F |-> Eye(2), Q |-> Q0, c |-> Zeros(2, 1)]>>  \* per state: filtered estimate, transition into it
        /\ k = 0

NStates == Rows(J.m) \div N
Last(C) == SubMat(C, Rows(C) - N + 1, Rows(C), 1, Cols(C))        \* covariance of the last state with all
Extend(F, Q, c) ==
  LET L == Last(J.C)
      P == SubMat(L, 1, N, Cols(L) - N + 1, Cols(L))
      m == SubMat(J.m, Rows(J.m) - N + 1, Rows(J.m), 1, 1)
  IN  [m |-> VCat(J.m, (F ** m) ++ c), C |-> VCat(HCat(J.C, MT(L) ** MT(F)), HCat(F ** L, Sandwich(F, P) ++ Q))]

DoPredict(p) ==
  LET q == Predict(s, [u |-> p.u, B |-> "NONE", F |-> p.F, Q |-> p.Q])
      c == B0 ** p.u
      Fi == MInv(p.F)
      A == Sandwich(MT(Fi), inf.Pi)
  IN  /\ s' = q
      /\ J' = Extend(p.F, p.Q, c)
      /\ ms' = ms
      /\ inf' = [Pi |-> A ** MInv(Eye(N) ++ (p.Q ** A)), x |-> (p.F ** inf.x) ++ c]
      /\ log' = Append(log, [u |-> "predict", x |-> q.x, P |-> q.P, F |-> p.F, Q |-> p.Q, c |-> c])
DoUpdate(a) ==
  LET q == Update(s, a)
      H == a.H
      Ri == MInv(a.R)
      Pi == inf.Pi ++ ((MT(H) ** Ri) ** H)
  IN  /\ s' = q
      /\ J' = J
      /\ IF IsNone(a.z) THEN ms' = ms /\ inf' = inf
         ELSE /\ ms' = Append(ms, [z |-> a.z, H |-> H, R |-> a.R, at |-> NStates, ll |-> q.ll])
              /\ inf' = [Pi |-> Pi, x |-> MInv(Pi) ** ((inf.Pi ** inf.x) ++ ((MT(H) ** Ri) ** a.z))]
      /\ log' = [log EXCEPT ![Len(log)].x = q.x, ![Len(log)].P = q.P]
Next == k < Depth /\ k' = k + 1 /\ ((\E i \in 1..Len(Steps) : DoPredict(Steps[i])) \/ (\E i \in 1..Len(Sights) : DoUpdate(Sights[i])))
Spec == Init /\ [][Next]_vars
View == <<s, J, ms, log>>

------------------------------------------------------------------------------
(* the joint distribution of the measurements ms, and conditioning on them *)
HRow(m, n) == [i \in 1..Rows(m.H) |-> [j \in 1..(N * n) |-> LET b == (j - 1) \div N + 1 IN
                 IF b = m.at THEN m.H[i][((j - 1) % N) + 1] ELSE 0]]
RECURSIVE StackA(_, _, _), StackZ(_, _), StackR(_, _)
StackA(q, i, n) == IF i = 1 THEN HRow(q[1], n) ELSE VCat(StackA(q, i - 1, n), HRow(q[i], n))
StackZ(q, i) == IF i = 1 THEN q[1].z ELSE VCat(StackZ(q, i - 1), q[i].z)
StackR(q, i) == IF i = 1 THEN q[1].R
                ELSE LET A == StackR(q, i - 1) B == q[i].R IN
                     VCat(HCat(A, Zeros(Rows(A), Rows(B))), HCat(Zeros(Rows(B), Rows(A)), B))
Given(q) ==
  IF q = <<>> THEN J
  ELSE LET n == NStates
           A == StackA(q, Len(q), n)
           S == Sandwich(A, J.C) ++ StackR(q, Len(q))
           G == (J.C ** MT(A)) ** MInv(S)
       IN  [m |-> J.m ++ (G ** (StackZ(q, Len(q)) -- (A ** J.m))), C |-> J.C -- (G ** (A ** J.C)),
            ll |-> LogPdf(StackZ(q, Len(q)) -- (A ** J.m), S)]
Block(g, j) == [x |-> SubMat(g.m, N * (j - 1) + 1, N * j, 1, 1), P |-> SubMat(g.C, N * (j - 1) + 1, N * j, N * (j - 1) + 1, N * j)]

\* C02: the estimate is the conditional mean of the state given all measurements, P its covariance
Optimal == LET b == Block(Given(ms), NStates) IN Is(b.x, s.x) /\ Is(b.P, s.P)
\* C37
Covariance == Is(s.P, MT(s.P)) /\ IsPSD(s.P, 0) /\ IsPSD(s.Pp, 0)
\* C16: in information form
Information == Is(inf.x, s.x) /\ Is(MInv(inf.Pi), s.P)
\* C09: the log-likelihoods of the single measurements add up to that of all of them together
TotalLL == RSumTo(LAMBDA i : ms[i].ll, Len(ms))
Evidence == ms = <<>> \/ Close(Given(ms).ll, TotalLL, Frac(1, RPow(10, 30)), Frac(1, RPow(10, 30)))
\* C08: the smoother returns the conditional means of all states given all measurements
RtsInput == [X |-> [i \in 1..Len(log) |-> log[i].x], P |-> [i \in 1..Len(log) |-> log[i].P]]
NoControl == \A i \in 1..Len(log) : Is(log[i].c, Zeros(2, 1))
Smoother == NoControl =>
  LET r == RtsOut(RtsInput.X, RtsInput.P, [i \in 1..Len(log) |-> log[i].F], [i \in 1..Len(log) |-> log[i].Q])
      g == Given(ms)
  IN  \A j \in 1..Len(log) : LET b == Block(g, j) IN Is(b.x, r.x[j]) /\ Is(b.P, r.P[j])
\* C22: the lagged estimates are the conditional means too, whatever the model did
Lagged == LET g == Given(ms) IN \A j \in 1..Len(log) : Is(Block(g, j).x, Smoothed(log, j, Len(log)))

\* C03: a missing measurement leaves the estimate alone
NoneKeeps == [][ms' = ms /\ J' = J => Is(s'.x, s.x) /\ Is(s'.P, s.P) /\ Is(s'.ll, s.ll)]_vars
\* C02: three forms of the posterior covariance agree
Forms == \A i \in 1..Len(Sights) : LET a == Sights[i] IN IsNone(a.z) \/
  LET q == Update(s, a) IN
  /\ Is(q.P, s.P -- Sandwich(q.K, q.S))
  /\ Is(q.P, (Eye(N) -- (q.K ** a.H)) ** s.P)
  /\ Is(MInv(q.P), MInv(s.P) ++ ((MT(a.H) ** MInv(a.R)) ** a.H))
\* C04: rows of a measurement with independent noises may be used one after the other, in any order;
\* no correlation of the noises is no correlation
OneRow(a, i) == [z |-> <<a.z[i]>>, start |-> i - 1, H |-> "NONE", R |-> "NONE"]
DiagSight == Sights[4]
Sequential ==
  LET a == DiagSight
      f == [s EXCEPT !.H = a.H, !.R = a.R]
      q == Update(f, a)
      r == SeqUpdate(SeqUpdate(f, OneRow(a, 1)), OneRow(a, 2))
      t == SeqUpdate(SeqUpdate(f, OneRow(a, 2)), OneRow(a, 1))
  IN  Is(q.x, r.x) /\ Is(q.P, r.P) /\ Is(q.x, t.x) /\ Is(q.P, t.P)
Correlated0 == \A i \in 1..Len(Sights) : LET a == Sights[i] IN IsNone(a.z) \/
  LET f == [s EXCEPT !.M = Zeros(N, Rows(a.z))]
      q == Update(f, a)  r == UpdateCorr(f, a)
  IN  Is(q.x, r.x) /\ Is(q.P, r.P) /\ Is(q.K, r.K)
\* C04: correlated noise is conditioning of the joint distribution of state and measurement,
\* whose cross covariance is P H' + M
CorrelatedM == \A i \in 1..Len(Sights) : LET a == Sights[i] IN IsNone(a.z) \/ Rows(a.z) > 1 \/
  LET f == [s EXCEPT !.M = <<<<Frac(1, 20)>>, <<Frac(-1, 30)>>>>]
      r == UpdateCorr(f, a)
      C == (s.P ** MT(a.H)) ++ f.M
      D == ((Sandwich(a.H, s.P) ++ (a.H ** f.M)) ++ (MT(f.M) ** MT(a.H))) ++ a.R
  IN  Is(r.x, s.x ++ ((C ** MInv(D)) ** (a.z -- (a.H ** s.x)))) /\ Is(r.P, s.P -- (C ** (MInv(D) ** MT(C))))
\* C17: the factorised update: triangularising the array [R^T/2 0; P^T/2 H' P^T/2] yields S, K and the posterior factor
Arrays == \A i \in 1..Len(Sights) : LET a == Sights[i] IN IsNone(a.z) \/
  LET m == Rows(a.z)
      A == VCat(HCat(Sandwich(a.H, s.P) ++ a.R, a.H ** s.P), HCat(s.P ** MT(a.H), s.P))
      U == MChol(A)                      \* upper triangular, U'U = A
      Su == SubMat(U, 1, m, 1, m)  Ku == SubMat(U, 1, m, m + 1, m + N)  Pu == SubMat(U, m + 1, m + N, m + 1, m + N)
      q == Update(s, a)
      e == Frac(1, RPow(10, 30))
  IN  /\ Close(q.S, MT(Su) ** Su, e, e) /\ Close(q.K, MT(Ku) ** MInv(MT(Su)), e, e) /\ Close(q.P, MT(Pu) ** Pu, e, e)
\* C06: the batch of the whole history is the history
EpochIdx == {1, 3} \X {1, 2, 5}
Epoch(i) == <<Steps[i[1]], Sights[i[2]]>>
BatchArgs(e, f, first) == [zs |-> <<e[2].z, f[2].z>>, Fs |-> <<e[1].F, f[1].F>>, Qs |-> "NONE", Bs |-> "NONE",
                           us |-> <<e[1].u, f[1].u>>, Hs |-> <<e[2].H, f[2].H>>, Rs |-> <<e[2].R, f[2].R>>, first |-> first]
Pa(p) == [u |-> p.u, B |-> "NONE", F |-> p.F, Q |-> "NONE"]
Batches == \A i, j \in EpochIdx :
  LET e == Epoch(i)  f == Epoch(j)
      a == Update(Predict(Update(Predict(s, Pa(e[1])), e[2]), Pa(f[1])), f[2])
      b == Predict(Update(Predict(Update(s, e[2]), Pa(e[1])), f[2]), Pa(f[1]))
  IN  Is(BatchOut(s, BatchArgs(e, f, FALSE)).s, a) /\ Is(BatchOut(s, BatchArgs(e, f, TRUE)).s, b)
=============================================================================
