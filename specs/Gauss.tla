------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Gaussians: products and sums, densities, distances, ellipses.           *)
(***************************************************************************)
EXTENDS KF

\* density of N(m, v) at x
Pdf(x, m, v) == RDiv(RExp(RDiv(RNeg(RSq(RSub(x, m))), RMul(2, v))), RSqrt(RMul(RMul(2, RPi), v)))
Cdf(x, m, v) == RMul(Frac(1, 2), RAdd(1, RErf(RDiv(RSub(x, m), RSqrt(RMul(2, v))))))

\* product of two densities: proportional to a density, by the factor GScale
GMul(m1, v1, m2, v2) == <<RDiv(RAdd(RMul(v1, m2), RMul(v2, m1)), RAdd(v1, v2)), RDiv(RMul(v1, v2), RAdd(v1, v2))>>
GScale(m1, v1, m2, v2) == Pdf(m1, m2, RAdd(v1, v2))
GAdd(m1, v1, m2, v2) == <<RAdd(m1, m2), RAdd(v1, v2)>>
\* in information form: the precisions add up
MvMul(m1, C1, m2, C2) ==
  LET I1 == MInv(C1) I2 == MInv(C2) C == MInv(I1 ++ I2) IN <<C ** ((I1 ** m1) ++ (I2 ** m2)), C>>

MvPdf(x, m, C) == RExp(LogPdf(x -- m, C))
\* N(m, a v v'), at m + t v on the line where it lives
LogPdfLine(t, a, v) == LET n2 == RSumTo(LAMBDA i : RSq(v[i]), Len(v)) IN
  RMul(Frac(-1, 2), RAdd(RDiv(RSq(t), a), RLn(RMul(RMul(RMul(2, RPi), a), n2))))

\* (angle, w, h) is the ellipse of C at d standard deviations: C has the eigenvector (cos, sin)
\* with eigenvalue (w/d)^2, and (-sin, cos) with (h/d)^2
EllipseOK(C, d, ang, w, h, rel) ==
  LET c == RCos(ang) s == RSin(ang)
      L == RSq(RDiv(w, d)) S == RSq(RDiv(h, d))
      R == <<<<RAdd(RMul(L, RSq(c)), RMul(S, RSq(s))), RMul(RSub(L, S), RMul(c, s))>>,
             <<RMul(RSub(L, S), RMul(c, s)), RAdd(RMul(L, RSq(s)), RMul(S, RSq(c)))>>>>
  IN  RLe(0, h) /\ RLe(h, w) /\ Close(C, R, rel, 0)

\* Student's t with 1 (through its tangent), 2 and 4 degrees of freedom
TCdf(df, x) ==
  CASE df = 2 -> RAdd(Frac(1, 2), RDiv(x, RMul(2, RSqrt(RAdd(2, RSq(x))))))
    [] df = 4 -> LET q == RAdd(1, RDiv(RSq(x), 4)) IN
         RAdd(Frac(1, 2), RMul(RMul(Frac(3, 8), RDiv(x, RSqrt(q))), RSub(1, RDiv(RSq(x), RMul(12, q)))))
Nees(x, e, P) == LET d == x -- e IN (MT(d) ** (MInv(P) ** d))[1][1]
=============================================================================
