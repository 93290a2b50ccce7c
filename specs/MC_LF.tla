------------------------------- MODULE MC_LF -------------------------------
(***************************************************************************)
(* The fading memory filter and the H-infinity filter explored.            *)
(***************************************************************************)
EXTENDS Filters
CONSTANT Depth
VARIABLES s, h, kf, D, k
vars == <<s, h, kf, D, k>>
Is(a, b) == Close(a, b, 0, 0)
Fs == <<<<<<1, 1>>, <<0, 1>>>>, <<<<1, Frac(1, 2)>>, <<-1, Frac(1, 3)>>>>>>
Sights == <<[z |-> <<<<1>>>>, H |-> <<<<1, 0>>>>], [z |-> <<<<-3>>>>, H |-> <<<<1, -1>>>>], [z |-> "NONE", H |-> <<<<1, 0>>>>]>>
R == <<<<Frac(1, 2)>>>>
X0 == <<<<1>>, <<-1>>>>
P0 == <<<<2, 1>>, <<1, 3>>>>
Al == Frac(11, 10)
Base(kind) == [kind |-> kind, x |-> X0, P |-> P0, F |-> Fs[1], Q |-> Zeros(2, 2), B |-> "NONE", H |-> Sights[1].H, R |-> R, alpha |-> Al,
               xp |-> X0, Pp |-> P0, xo |-> X0, Po |-> P0, y |-> <<<<0>>>>, S |-> <<<<1>>>>, SI |-> <<<<1>>>>, K |-> Zeros(2, 1), z |-> "NONE",
               ll |-> 0, mah |-> 0, V |-> R, W |-> <<<<1, 0>>, <<0, Frac(1, 3)>>>>, gamma |-> 0]
\* D: the discounted normal equations  N x = v  of all data, as seen from the present state
Init == /\ s = Base("FADING")
        /\ h = [Base("HINF") EXCEPT !.F = Eye(2)]
        /\ kf = [Base("KF") EXCEPT !.alpha = 1]
        /\ D = [N |-> MInv(P0), v |-> MInv(P0) ** X0]
        /\ k = 0
DoPredict(F) ==
  /\ s' = GPredict([s EXCEPT !.F = F], [u |-> "NONE"])
  /\ LET Fi == MInv(F) IN D' = [N |-> MScale(RDiv(1, RSq(Al)), Sandwich(MT(Fi), D.N)), v |-> MScale(RDiv(1, RSq(Al)), MT(Fi) ** D.v)]
  /\ UNCHANGED <<h, kf>>
DoUpdate(a) ==
  /\ s' = GUpdate([s EXCEPT !.H = a.H], [z |-> a.z, R |-> "NONE"])
  /\ D' = IF IsNone(a.z) THEN D ELSE LET HR == MT(a.H) ** MInv(R) IN [N |-> D.N ++ (HR ** a.H), v |-> D.v ++ (HR ** a.z)]
  \* the H-infinity recursion keeps the covariance of the prediction, the filter beside it is in that form too
  /\ h' = GUpdate([h EXCEPT !.H = a.H], [z |-> a.z])
  /\ kf' = IF IsNone(a.z) THEN kf
           ELSE Predict(Update(kf, [z |-> a.z, H |-> a.H, R |-> R]), [u |-> "NONE", B |-> "NONE", F |-> Eye(2), Q |-> kf.W])
Next == k < Depth /\ k' = k + 1 /\ ((\E i \in 1..Len(Fs) : DoPredict(Fs[i])) \/ (\E i \in 1..Len(Sights) : DoUpdate(Sights[i])))
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* C18: without process noise the fading filter is least squares with data discounted by alpha^-2 per step
Discounted == Is(MInv(D.N), s.P) /\ Is(MInv(D.N) ** D.v, s.x)
\* C18: alpha 1 is the Kalman filter
Alpha1 == \A i \in 1..2 : LET a == GPredict([s EXCEPT !.alpha = 1, !.F = Fs[i]], [u |-> "NONE"])
                              b == Predict([s EXCEPT !.alpha = 1], [u |-> "NONE", B |-> "NONE", F |-> Fs[i], Q |-> "NONE"])
                          IN Is(a.x, b.x) /\ Is(a.P, b.P)
Grows == \A i \in 1..2 : LET a == GPredict([s EXCEPT !.F = Fs[i]], [u |-> "NONE"]) IN IsPSD(a.P -- Sandwich(Fs[i], s.P), 0)
\* C19: when nothing is bounded (gamma = 0) the H-infinity filter is the Kalman filter
Minimax0 == Is(h.x, kf.x) /\ Is(h.P, kf.P)
\* C19: the bound makes the filter more cautious: the covariance grows with gamma
Cautious == \A i \in 1..2 : LET q == [h EXCEPT !.Q = MScale(Frac(1, 10), Eye(2)), !.H = Sights[i].H]
                                a == GUpdate([q EXCEPT !.gamma = 0], [z |-> Sights[i].z])
                                b == GUpdate([q EXCEPT !.gamma = Frac(1, 10)], [z |-> Sights[i].z])
                            IN  IsPSD(b.P -- a.P, 0)
=============================================================================
