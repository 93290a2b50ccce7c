------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* The other filters with a linear or linearised model; s.kind says which. *)
(*   EKF     ExtendedKalmanFilter     FADING  FadingKalmanFilter           *)
(*   SR      SquareRootKalmanFilter   INFO    InformationFilter            *)
(*   HINF    HInfinityFilter                                               *)
(* The state record is that of KF; INFO has P^-1 and R^-1 as Pi and Ri,    *)
(* HINF has V, W and gamma.                                                *)
(***************************************************************************)
EXTENDS KF

Sq(x) == MHad(x, x)
\* the nonlinear functions the drivers use: A x + c G (x o x), and its Jacobian
Quad(A, c, G, x) == (A ** x) ++ MScale(c, G ** Sq(x))
QuadJac(A, c, G, x) == A ++ MScale(RMul(2, c), G ** Diag(SeqOf(x)))
\* a residual function that wraps into [-2, 2), as one for angles does
Wrap(v) == RSub(v, RMul(4, RFloor(RDiv(RAdd(v, 2), 4))))
Resid(kind, a, b) == LET d == a -- b IN
  IF kind = "wrap" THEN [i \in 1..Rows(d) |-> <<Wrap(d[i][1])>>] ELSE d

Ctl(s, x, u) == IF IsNone(u) THEN x ELSE x ++ (s.B ** u)
LinX(s, u) == Ctl(s, IF Has(s, "fc") THEN Quad(s.F, s.fc, s.fG, s.x) ELSE s.F ** s.x, u)
Prior(s, x, P) == [s EXCEPT !.x = x, !.P = P, !.xp = x, !.Pp = P]

GPredict(s, a) ==
  CASE s.kind = "HINF" -> [s EXCEPT !.x = LinX(s, a.u)]
    [] s.kind = "INFO" ->
         LET x  == LinX(s, a.u)
             Fi == MInv(s.F)
             A  == Sandwich(MT(Fi), s.Pi)
             \* (F P F' + Q)^-1, which exists also where P does not
             Pi == A ** MInv(Eye(Rows(s.x)) ++ (s.Q ** A))
         IN  [s EXCEPT !.x = x, !.Pi = Pi, !.xp = x, !.Pip = Pi]
    [] OTHER -> Prior(s, LinX(s, a.u), MScale(RSq(s.alpha), Sandwich(s.F, s.P)) ++ s.Q)

EkfUpdate(s, a) ==
  IF IsNone(a.z) THEN [s EXCEPT !.xo = s.x, !.Po = s.P, !.z = "ALLNONE"]
  ELSE LET H == IF Has(a, "H") THEN a.H ELSE s.H  G == IF Has(a, "H") THEN a.G ELSE s.G    \* those of the sensor that speaks
       IN  UpdateWith(s, a.z, Resid(a.resid, a.z, Quad(H, a.c, G, s.x)), QuadJac(H, a.cj, G, s.x), Cov(Or(a.R, s.R), Rows(H)))

InfoUpdate(s, a) ==
  IF IsNone(a.z) THEN [s EXCEPT !.xo = s.x, !.Pio = s.Pi, !.z = "NONE"]
  ELSE LET Ri  == Cov(Or(a.R, s.Ri), Rows(s.H))
           HR  == MT(s.H) ** Ri
           Pi  == s.Pi ++ (HR ** s.H)
           x   == MInv(Pi) ** ((s.Pi ** s.x) ++ (HR ** a.z))
       IN  [s EXCEPT !.x = x, !.Pi = Pi, !.xo = x, !.Pio = Pi, !.z = a.z]
InfoY(s, a) == a.z -- (s.H ** s.x)
InfoLL(s, a) == LET Ri == Cov(Or(a.R, s.Ri), Rows(s.H))
                IN  LogPdf(InfoY(s, a), Sandwich(s.H, MInv(s.Pi)) ++ MInv(Ri))

HInfUpdate(s, a) ==
  IF IsNone(a.z) THEN s
  ELSE LET HV == MT(s.H) ** MInv(s.V)
           L  == MInv((Eye(Rows(s.x)) -- MScale(s.gamma, s.Q ** s.P)) ++ ((HV ** s.H) ** s.P))
           FPL == s.F ** (s.P ** L)
           y  == a.z -- (s.H ** s.x)
       IN  [s EXCEPT !.x = s.x ++ ((FPL ** HV) ** y), !.P = Sym((FPL ** MT(s.F)) ++ s.W), !.y = y, !.z = a.z]

GUpdate(s, a) ==
  CASE s.kind = "EKF" -> EkfUpdate(s, a)
    [] s.kind = "INFO" -> InfoUpdate(s, a)
    [] s.kind = "HINF" -> HInfUpdate(s, a)
    [] s.kind = "SR" /\ ~IsNone(a.R) -> UpdateWith(s, a.z, a.z -- (s.H ** s.x), s.H, LET L == Cov(a.R, Rows(s.H)) IN L ** MT(L))
    [] OTHER -> IF IsNone(a.z) THEN [s EXCEPT !.xo = s.x, !.Po = s.P, !.z = "ALLNONE"]
                ELSE UpdateWith(s, a.z, a.z -- (s.H ** s.x), s.H, Cov(Or(a.R, s.R), Rows(s.H)))

\* batch_filter of FADING and HINF
RECURSIVE GBatch(_, _, _, _)
GBatch(s, a, i, acc) ==
  IF i > Len(a.zs) THEN [s |-> s, out |-> acc]
  ELSE LET ua == [z |-> a.zs[i], R |-> At(a.Rs, i)]  pa == [u |-> "NONE"]
           p == IF a.first THEN GUpdate(s, ua) ELSE GPredict(s, pa)
           q == IF a.first THEN GPredict(p, pa) ELSE GUpdate(p, ua)
           u == IF a.first THEN p ELSE q
           v == IF a.first THEN q ELSE p
       IN  GBatch(q, a, i + 1, [m  |-> Append(acc.m, u.x),  c  |-> Append(acc.c, u.P),
                                mp |-> Append(acc.mp, v.x), cp |-> Append(acc.cp, v.P)])
=============================================================================
