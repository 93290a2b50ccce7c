------------------------------- MODULE MC_ST -------------------------------
(* Gaussians: the operators of Gauss against what they are for, over a set  *)
(* of means, variances and covariances.                                     *)
EXTENDS Gauss
CONSTANT Depth
VARIABLES a, b, c
vars == <<a, b, c>>
Tol == Frac(1, RPow(10, 25))
Is(x, y) == Close(x, y, Tol, 0)
G == <<<<0, 1>>, <<Frac(7, 2), Frac(1, 4)>>, <<-3, 9>>, <<12, 2>>>>
Init == a \in 1..4 /\ b \in 1..4 /\ c \in 1..4
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
A == G[a]  B == G[b]  C == G[c]
Mul(x, y) == GMul(x[1], x[2], y[1], y[2])
Add(x, y) == GAdd(x[1], x[2], y[1], y[2])
\* C29
Products == Is(Mul(Mul(A, B), C), Mul(A, Mul(B, C))) /\ Is(Add(Add(A, B), C), Add(A, Add(B, C)))
Orderless == Is(Mul(A, B), Mul(B, A)) /\ Is(Add(A, B), Add(B, A)) /\ Is(GScale(A[1], A[2], B[1], B[2]), GScale(B[1], B[2], A[1], A[2]))
Scaled == LET m == Mul(A, B) IN
  \A x \in {-2, 0, 1, 5} : Close(1, RDiv(RMul(GScale(A[1], A[2], B[1], B[2]), Pdf(x, m[1], m[2])), RMul(Pdf(x, A[1], A[2]), Pdf(x, B[1], B[2]))), Tol, 0)
M2 == <<<<<<2, 1>>, <<1, 3>>>>, <<<<1, 0>>, <<0, Frac(1, 5)>>>>, <<<<5, -2>>, <<-2, 1>>>>, <<<<1, Frac(1, 2)>>, <<Frac(1, 2), 1>>>>>>
V2 == <<<<<<1>>, <<-1>>>>, <<<<0>>, <<4>>>>, <<<<-3>>, <<Frac(1, 2)>>>>, <<<<2>>, <<2>>>>>>
Matrix == LET r == MvMul(V2[a], M2[a], V2[b], M2[b])
              q == MvMul(V2[b], M2[b], V2[a], M2[a])
              s == MvMul(<<<<A[1]>>>>, <<<<A[2]>>>>, <<<<B[1]>>>>, <<<<B[2]>>>>)
              \* as a Kalman update of the first with the second
              K == M2[a] ** MInv(M2[a] ++ M2[b])
          IN  Is(r[1], q[1]) /\ Is(r[2], q[2]) /\ Is(Mul(A, B), <<s[1][1][1], s[2][1][1]>>)
              /\ Is(V2[a] ++ (K ** (V2[b] -- V2[a])), r[1]) /\ Is(M2[a] -- (K ** M2[a]), r[2])
\* C30: the density has mass one (the trapezoidal rule over 12 standard deviations is that exact), the distribution
\* function is its integral, and both see only (x - mean)/sd
Sd == RSqrt(A[2])
TotalMass == Close(1, RMul(RDiv(Sd, 4), RSumTo(LAMBDA i : Pdf(RAdd(A[1], RMul(RDiv(Sd, 4), i - 49)), A[1], A[2]), 97)), Tol, 0)
\* Euler-Maclaurin: trapezoidal sums of a density between points d apart, corrected by the end slopes
Distribution ==
  LET h == RDiv(Sd, 64)
      x0 == RSub(A[1], RMul(Sd, 2))
      n == 64 * b
      x1 == RAdd(x0, RMul(h, n))
      f(i) == RMul(IF i = 0 \/ i = n THEN Frac(1, 2) ELSE 1, Pdf(RAdd(x0, RMul(h, i)), A[1], A[2]))
      slope(x) == RMul(RDiv(RSub(A[1], x), A[2]), Pdf(x, A[1], A[2]))
      I == RSub(RMul(h, RAdd(f(0), RSumTo(f, n))), RMul(RDiv(RSq(h), 12), RSub(slope(x1), slope(x0))))
  IN  c > 1 \/ Close(I, RSub(Cdf(x1, A[1], A[2]), Cdf(x0, A[1], A[2])), 0, Frac(1, RPow(10, 9)))
\* a bivariate density with independent components is the product of the densities
Marginal == Is(MvPdf(<<<<B[1]>>, <<1>>>>, <<<<A[1]>>, <<C[1]>>>>, <<<<A[2], 0>>, <<0, C[2]>>>>), RMul(Pdf(B[1], A[1], A[2]), Pdf(1, C[1], C[2])))
\* a density on a line is the density of the distance along it
OnLine == LET v == <<3, 4>> IN Is(RExp(LogPdfLine(b, A[2], v)), Pdf(RMul(5, b), 0, RMul(25, A[2])))
\* C31
Ellipses ==
  LET L == 4  S == Frac(1, b)
      ang == CASE a = 1 -> 0 [] a = 2 -> Frac(1, 3) [] a = 3 -> Frac(-6, 5) [] a = 4 -> RDiv(RPi, 2)
      \* the axes as they lie in the plane: a turn by ang of those along x and y
      R == <<<<RCos(ang), RNeg(RSin(ang))>>, <<RSin(ang), RCos(ang)>>>>
      Cv == Sandwich(R, <<<<L, 0>>, <<0, S>>>>)
  IN  (EllipseOK(Cv, c, ang, RMul(c, 2), RMul(c, RSqrt(S)), Tol) /\
                      (~EllipseOK(Cv, c, RAdd(ang, Frac(1, 10)), RMul(c, 2), RMul(c, RSqrt(S)), Frac(1, 1000))) /\
                      ~EllipseOK(Cv, c + 1, ang, RMul(c, 2), RMul(c, RSqrt(S)), Frac(1, 1000)))
\* distances do not depend on the coordinates
AffineDistance == LET T == <<<<1, 2>>, <<-1, c>>>> IN Is(Maha(V2[a] -- V2[b], M2[c]), Maha(T ** (V2[a] -- V2[b]), Sandwich(T, M2[c])))
StudentT == \A df \in {2, 4} : /\ Is(TCdf(df, 0), Frac(1, 2))
                               /\ \A t \in {1, 2, 10} : Is(1, RAdd(TCdf(df, t), TCdf(df, -t))) /\ RLt(TCdf(df, t - 1), TCdf(df, t))
                               /\ Close(1, TCdf(df, RPow(10, 9)), Frac(1, RPow(10, 15)), 0)
=============================================================================
