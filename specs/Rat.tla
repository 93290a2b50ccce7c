-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic.                                              *)
(*                                                                         *)
(* The definitions below give the meaning of every operator, a rational    *)
(* being a normalised pair <<n, d>>.  TLC's integers are 32 bit wide, and  *)
(* the numbers met when a trace of double precision numbers is replayed    *)
(* have hundreds of digits, so TLC evaluates these operators with the Java *)
(* bodies of java/FpOps.java (BigInteger).  RatLaws.tla is the TLC check   *)
(* that those bodies satisfy the definitions and the field axioms.         *)
(*                                                                         *)
(* BAD is "no such number": x / 0, the root of a negative number, NaN.     *)
(* It is absorbing, and close to nothing, not even to itself.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Gcd[a \in Nat, b \in Nat] == IF b = 0 THEN a ELSE Gcd[b, a % b]
LOCAL AbsI(a) == IF a < 0 THEN -a ELSE a
LOCAL Norm(n, d) == LET g == Gcd[AbsI(n), AbsI(d)]
                        s == IF d < 0 THEN -1 ELSE 1
                    IN  <<(s * n) \div g, (s * d) \div g>>
LOCAL BAD == <<0, 0>>

Frac(n, d)    == IF d = 0 THEN BAD ELSE Norm(n, d)
RAdd(a, b) == Frac(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Frac(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == Frac(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == Frac(a[1] * b[2], a[2] * b[1])
RNeg(a)    == Frac(-a[1], a[2])
RAbs(a)    == Frac(AbsI(a[1]), a[2])
RLt(a, b)  == a[1] * b[2] < b[1] * a[2]
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
REq(a, b)  == a[1] * b[2] = b[1] * a[2]
RFloor(a)  == Frac(a[1] \div a[2], 1)
RInt(a)    == a[1] \div a[2]            \* an integer-valued rational as a TLA+ integer
RPow(a, k) == IF k >= 0 THEN Frac(a[1]^k, a[2]^k) ELSE Frac(a[2]^(-k), a[1]^(-k))
IsRat(a)   == a /= BAD
IsNone(a)  == a = "NONE"                \* the absent argument (Python's None)

\* Irrational values: the rational within 10^-55 (relative) of the real one.
RSqrt(a) == CHOOSE r \in Nat \X Nat : RMul(r, r) = a
RLn(a)   == CHOOSE r \in Int \X Nat : TRUE   \* exp(r) = a
RExp(a)  == CHOOSE r \in Nat \X Nat : TRUE   \* sum of a^k / k!
RPi      == <<245850922, 78256779>>
RSin(a)  == CHOOSE r \in Int \X Nat : TRUE
RCos(a)  == CHOOSE r \in Int \X Nat : TRUE
RErf(a)  == CHOOSE r \in Int \X Nat : TRUE

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RSq(a) == RMul(a, a)

\* sum over a tuple of rationals, and over f(1) .. f(n)
RECURSIVE RSumTo(_, _)
RSumTo(f(_), n) == IF n = 0 THEN 0 ELSE RAdd(RSumTo(f, n - 1), f(n))
RSumSeq(s) == RSumTo(LAMBDA i : s[i], Len(s))
=============================================================================
