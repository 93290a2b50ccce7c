------------------------------ MODULE RatLaws ------------------------------
(* TLC check that the Java bodies of Rat and Mat mean what the TLA+          *)
(* definitions say, on every rational n/d with |n| <= N, 1 <= d <= D, and on *)
(* every 2x2 matrix (and a family of 3x3 ones) over small integers.          *)
EXTENDS Mat, Conform
CONSTANTS N, D
VARIABLES ph, k

Num == -N..N
Den == 1..D
Tiny(x) == RLe(RAbs(x), Frac(1, RPow(10, 50)))

Field(a, b, c, d) ==
  LET x == Frac(a, b)  y == Frac(c, d) IN
  /\ RAdd(x, y) = Frac(a * d + c * b, b * d)
  /\ RSub(x, y) = Frac(a * d - c * b, b * d)
  /\ RMul(x, y) = Frac(a * c, b * d)
  /\ (c /= 0 => RDiv(x, y) = Frac(a * d, b * c)) /\ (c = 0 => ~IsRat(RDiv(x, y)))
  /\ RLt(x, y) = (a * d < c * b) /\ RLe(x, y) = (a * d <= c * b) /\ REq(x, y) = (a * d = c * b)
  /\ RNeg(x) = Frac(-a, b) /\ RAbs(x) = Frac(IF a < 0 THEN -a ELSE a, b)
  /\ RFloor(x) = Frac(a \div b, 1) /\ RInt(RFloor(x)) = a \div b
  /\ RAdd(x, y) = RAdd(y, x) /\ RMul(x, RAdd(y, 1)) = RAdd(RMul(x, y), x)
  /\ [[f |-> x, g |-> y] EXCEPT !.f = y, !.g = RAdd(@, x)] = [f |-> y, g |-> RAdd(x, y)]
  /\ RPow(x, 3) = RMul(x, RMul(x, x)) /\ (a /= 0 => RMul(RPow(x, -2), RMul(x, x)) = Frac(1, 1))

Trans(a, b) ==
  LET x == Frac(a, b) IN
  /\ (a > 0 => Tiny(RSub(RSq(RSqrt(x)), x)) /\ Tiny(RSub(RExp(RLn(x)), x)))
  /\ Tiny(RSub(RMul(RExp(x), RExp(RNeg(x))), 1))
  /\ Tiny(RSub(RAdd(RSq(RSin(x)), RSq(RCos(x))), 1))
  /\ Tiny(RSub(RSin(RAdd(x, x)), RMul(2, RMul(RSin(x), RCos(x)))))
  /\ Tiny(RCos(RDiv(RPi, 2)))
  \* erf: odd, and its central difference is the derivative 2/sqrt(pi) exp(-x^2)
  /\ Tiny(RAdd(RErf(x), RErf(RNeg(x))))
  /\ LET h == Frac(1, 1000000) IN
       RLe(RAbs(RSub(RDiv(RSub(RErf(RAdd(x, h)), RErf(RSub(x, h))), RMul(2, h)),
                     RDiv(RMul(2, RExp(RNeg(RSq(x)))), RSqrt(RPi)))), Frac(1, 1000000000))

M2 == {<<<<a, b>>, <<c, d>>>> : a \in -1..2, b \in -1..1, c \in -1..1, d \in -2..1}
PMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> RSumTo(LAMBDA q : RMul(A[i][q], B[q][j]), Len(B))]]
Same(A, B) == Close(A, B, 0, 0) /\ Close(B, A, 0, 0)
Matrix(A, B) ==
  /\ Same(MMul(A, B), PMul(A, B))
  /\ Same(MAdd(A, B), [i \in 1..2 |-> [j \in 1..2 |-> A[i][j] + B[i][j]]])
  /\ Same(MSub(A, B), [i \in 1..2 |-> [j \in 1..2 |-> A[i][j] - B[i][j]]])
  /\ Same(MHad(A, B), [i \in 1..2 |-> [j \in 1..2 |-> A[i][j] * B[i][j]]])
  /\ Same(MT(A), [i \in 1..2 |-> [j \in 1..2 |-> A[j][i]]])
  /\ Same(MScale(3, A), [i \in 1..2 |-> [j \in 1..2 |-> 3 * A[i][j]]])
  /\ REq(MDet(A), A[1][1] * A[2][2] - A[1][2] * A[2][1])
  /\ Same(HCat(A, B), [i \in 1..2 |-> A[i] \o B[i]])
  /\ Same(SubMat(A, 2, 2, 1, 2), <<A[2]>>)
  /\ Rows(A) = 2 /\ Cols(HCat(A, B)) = 4
  /\ IF A[1][1] * A[2][2] = A[1][2] * A[2][1] THEN ~IsRat(MInv(A))
     ELSE Same(PMul(A, MInv(A)), Eye(2)) /\ Same(PMul(MInv(A), A), Eye(2))
  /\ LET G == Sandwich(A, Eye(2)) IN
       /\ IsPSD(G, 0)
       /\ (REq(MDet(G), 0) \/ LET U == MChol(G) IN
            /\ REq(U[2][1], 0) /\ RLt(0, U[1][1]) /\ RLt(0, U[2][2])
            /\ Close(MMul(MT(U), U), G, 0, Frac(1, RPow(10, 45))))
       /\ ~IsPSD(MNeg(G ++ Eye(2)), 0)
  /\ LET S == A ++ MT(A) IN IsPSD(S, 0) =
        (RLe(0, S[1][1]) /\ RLe(0, S[2][2]) /\ RLe(0, MDet(S)))
  \* exp: derivative-free characterisations
  /\ Close(MMul(MExp(A), MExp(MNeg(A))), Eye(2), 0, Frac(1, RPow(10, 40)))
  /\ LET E == MExp(MScale(Frac(1, 1000), A))
         T == MScale(Frac(1, 1000), A)
     IN Close(E, ((Eye(2) ++ T) ++ MScale(Frac(1, 2), T ** T)) ++ MScale(Frac(1, 6), T ** (T ** T)), 0, Frac(1, RPow(10, 8)))
  /\ LET C == <<<<A[1][1], A[1][2], 1>>, <<A[2][1], A[2][2], -1>>, <<B[1][1], 2, B[2][2]>>>>
     IN  IF REq(MDet(C), 0) THEN ~IsRat(MInv(C)) ELSE Same(PMul(C, MInv(C)), Eye(3))
  /\ ~IsRat(MMul(A, <<<<1, 2>>>>)) /\ ~IsRat(MAdd(A, <<<<1, 2>>>>))

Init == /\ ph \in {"field", "trans", "mat"}
        /\ k \in CASE ph = "field" -> Num \X Den
                   [] ph = "trans" -> Num \X Den
                   [] ph = "mat" -> M2
Next == UNCHANGED <<ph, k>>
Laws == CASE ph = "field" -> \A c \in Num, d \in Den : Field(k[1], k[2], c, d)
          [] ph = "trans" -> Trans(k[1], k[2])
          [] ph = "mat" -> \A B \in {<<<<1, 2>>, <<-1, 1>>>>, <<<<0, 1>>, <<2, -2>>>>, <<<<0, 0>>, <<0, 0>>>>} : Matrix(k, B)
=============================================================================
