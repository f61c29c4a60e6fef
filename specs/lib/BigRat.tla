------------------------------ MODULE BigRat ------------------------------
(***************************************************************************)
(* Exact rational numbers of unbounded size.                               *)
(*                                                                         *)
(* A rational is a canonical string "n" or "n/d" (d > 1, gcd(n,d) = 1).    *)
(* TLC's own integers are 32 bit wide, which no numerical trace fits, so   *)
(* the arithmetic below is evaluated by the Java class BigRat (same        *)
(* directory), which TLC loads as the override of this module.  The TLA+   *)
(* definitions here are only signatures; the meaning of each operator is   *)
(* the usual field operation of the rationals.                             *)
(*                                                                         *)
(* Every finite IEEE double is a dyadic rational, hence every number the   *)
(* implementation produces enters the specification without rounding.      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RAdd(a, b) == CHOOSE r \in STRING : TRUE     \* a + b
RSub(a, b) == CHOOSE r \in STRING : TRUE     \* a - b
RMul(a, b) == CHOOSE r \in STRING : TRUE     \* a * b
RDiv(a, b) == CHOOSE r \in STRING : TRUE     \* a / b   (b # 0)
RNeg(a)    == CHOOSE r \in STRING : TRUE     \* -a
RAbs(a)    == CHOOSE r \in STRING : TRUE     \* |a|
RLe(a, b)  == CHOOSE r \in BOOLEAN : TRUE    \* a <= b
RLt(a, b)  == CHOOSE r \in BOOLEAN : TRUE    \* a < b
RMax(a, b) == CHOOSE r \in STRING : TRUE
RPow(a, n) == CHOOSE r \in STRING : TRUE     \* a^n, n a TLC natural
RInt(i)    == CHOOSE r \in STRING : TRUE     \* TLC integer -> rational
RFloor(a)  == CHOOSE r \in Int : TRUE        \* floor, as a TLC integer
RDot(s, t) == CHOOSE r \in STRING : TRUE     \* \sum_i s[i]*t[i]
RSum(s)    == CHOOSE r \in STRING : TRUE     \* \sum_i s[i]
RProd(s)   == CHOOSE r \in STRING : TRUE     \* \prod_i s[i]
RMaxAbs(s) == CHOOSE r \in STRING : TRUE     \* max_i |s[i]|  ("0" if empty)
\* X with A X = B (sequences of rows), <<>> when A is singular
RSolve(A, B) == CHOOSE X \in Seq(Seq(STRING)) : TRUE
\* transcendental functions: the nearest double (as a rational), |error| < 2 ulp
RExp(a)    == CHOOSE r \in STRING : TRUE
RLog(a)    == CHOOSE r \in STRING : TRUE
RSqrt(a)   == CHOOSE r \in STRING : TRUE
RSin(a)    == CHOOSE r \in STRING : TRUE
RCos(a)    == CHOOSE r \in STRING : TRUE
RTan(a)    == CHOOSE r \in STRING : TRUE
RTanh(a)   == CHOOSE r \in STRING : TRUE
RPowR(a,b) == CHOOSE r \in STRING : TRUE    \* a^b, b rational
RRound(a)  == CHOOSE r \in STRING : TRUE    \* nearest double
RPi        == CHOOSE r \in STRING : TRUE
\* canonical form of any string "n/d"
RCanon(a)  == CHOOSE r \in STRING : TRUE
=============================================================================
