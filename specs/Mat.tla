-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Matrices of rationals: tuples of rows.  A column vector is an n x 1     *)
(* matrix.  As in Rat.tla, TLC evaluates the first group of operators with *)
(* Java bodies whose agreement with the definitions RatLaws.tla checks.    *)
(* An operation on matrices of the wrong shape is BAD.                     *)
(***************************************************************************)
EXTENDS Rat

Rows(A) == Len(A)
Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
MAdd(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RSub(A[i][j], B[i][j])]]
MMul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |->
                  RSumTo(LAMBDA k : RMul(A[i][k], B[k][j]), Cols(A))]]
MT(A)      == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
MScale(k, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RMul(k, A[i][j])]]
MHad(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> RMul(A[i][j], B[i][j])]]
Eye(n)     == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Zeros(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
HCat(A, B) == [i \in 1..Rows(A) |-> A[i] \o B[i]]
SubMat(A, r0, r1, c0, c1) == [i \in 1..(r1 - r0 + 1) |-> [j \in 1..(c1 - c0 + 1) |-> A[r0 + i - 1][c0 + j - 1]]]
MInv(A)    == CHOOSE B : MMul(A, B) = Eye(Rows(A))
MMaxAbs(A) == CHOOSE x : /\ \A i \in 1..Rows(A), j \in 1..Cols(A) : RLe(RAbs(A[i][j]), x)
                         /\ \E i \in 1..Rows(A), j \in 1..Cols(A) : REq(RAbs(A[i][j]), x)
RECURSIVE MDet(_)
MDet(A) == IF Rows(A) = 1 THEN A[1][1]
           ELSE RSumTo(LAMBDA j : RMul(IF j % 2 = 1 THEN A[1][j] ELSE RNeg(A[1][j]),
                  MDet([r \in 1..(Rows(A) - 1) |-> [c \in 1..(Rows(A) - 1) |-> A[r + 1][IF c < j THEN c ELSE c + 1]]])),
                  Rows(A))
\* the upper triangular U with a positive diagonal and U' U = A
MChol(A)   == CHOOSE U : /\ MMul(MT(U), U) = A
                         /\ \A i \in 1..Rows(A) : RLt(0, U[i][i]) /\ \A j \in 1..(i - 1) : U[i][j] = 0
\* sum over k of A^k / k!
MExp(A)    == CHOOSE E : TRUE
\* (A + A')/2 + eps I has no negative pivot
IsPSD(A, eps) == CHOOSE b \in BOOLEAN : TRUE

A ** B == MMul(A, B)
A ++ B == MAdd(A, B)
A -- B == MSub(A, B)
MNeg(A) == MScale(-1, A)
VCat(A, B) == A \o B
MTrace(A) == RSumTo(LAMBDA i : A[i][i], Rows(A))
Diag(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE 0]]
ColOf(s) == [i \in 1..Len(s) |-> <<s[i]>>]              \* tuple -> column vector
SeqOf(c) == [i \in 1..Rows(c) |-> c[i][1]]              \* column vector -> tuple
Const(r, c, k) == [i \in 1..r |-> [j \in 1..c |-> k]]
Sandwich(A, P) == (A ** P) ** MT(A)                     \* A P A'
Sym(A) == MScale(Frac(1, 2), A ++ MT(A))

\* sum of the matrices M(1) .. M(n), n >= 1
RECURSIVE MSumTo(_, _)
MSumTo(M(_), n) == IF n = 1 THEN M(1) ELSE MAdd(MSumTo(M, n - 1), M(n))
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 0 THEN Eye(Rows(A)) ELSE MMul(A, MPow(A, k - 1))
\* block diagonal of n copies of A
BlockDiag(A, n) == [i \in 1..(n * Rows(A)) |-> [j \in 1..(n * Cols(A)) |->
                     IF (i - 1) \div Rows(A) = (j - 1) \div Cols(A)
                     THEN A[((i - 1) % Rows(A)) + 1][((j - 1) % Cols(A)) + 1] ELSE 0]]
=============================================================================
