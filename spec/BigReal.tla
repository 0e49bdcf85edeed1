------------------------------ MODULE BigReal ------------------------------
(***************************************************************************)
(* Unbounded exact rationals (and the three transcendental functions the   *)
(* scoring laws need), written as strings: "3", "-7/2", "0.1", "1e-6".     *)
(* TLC integers are 32-bit, which is too small for sufficient statistics,  *)
(* seating probabilities and 32-bit keys, so every quantity that is not a  *)
(* small index lives here.                                                 *)
(*                                                                         *)
(* Each operator is given its mathematical meaning by the Java class       *)
(* spec/java/BigReal.java (part of the trusted base):                      *)
(*   RAdd RSub RMul RDiv RNeg RAbs RMax RMin RSum RLt RLe REq RInt RPow2   *)
(*     are exact on rationals;                                             *)
(*   RLn RExp RLnGamma are correctly rounded to double precision (about 15 *)
(*     significant digits) and then read back as an exact rational;        *)
(*   RFin(s) says that the numeral s is a finite number;                   *)
(*   RClose(x, y, a, r) == RFin(x) /\ |x - y| <= a + r * |y|.              *)
(***************************************************************************)
EXTENDS Sequences, Integers

LOCAL Num == CHOOSE s : s \notin Int       \* an abstract numeral

RAdd(a, b) == Num
RSub(a, b) == Num
RMul(a, b) == Num
RDiv(a, b) == Num
RNeg(a)    == Num
RAbs(a)    == Num
RMax(a, b) == Num
RMin(a, b) == Num
RSum(s)    == Num        \* s: a sequence or other function; sums its values
RFcn(ks, vs) == [x \in {ks[i] : i \in 1..Len(ks)} |-> Num]   \* maps ks[i] to vs[i]
RStirling(n) == <<Num>>  \* unsigned Stirling numbers of the first kind: row n, from S(n, 0) to S(n, n)
RInt(i)    == Num        \* the numeral of a TLC integer
RToInt(a)  == 0          \* the TLC integer of a small integral numeral
RNorm(a)   == Num        \* canonical form: equal numbers <=> equal strings
RPow2(i)   == Num        \* 2^i
RLn(a)     == Num        \* natural logarithm, a > 0
RExp(a)    == Num
RLnGamma(a) == Num       \* ln Gamma(a), a > 0
RSqrt(a)   == Num
RErf(a)    == Num
RGammaP(a, x) == Num     \* regularised lower incomplete gamma function
RBetaI(a, b, x) == Num   \* regularised incomplete beta function
RF32(a)    == Num        \* nearest IEEE single
RFloor(a)  == Num
RShow(a)   == Num        \* decimal rendering, for messages only
RLt(a, b)  == FALSE
RLe(a, b)  == FALSE
REq(a, b)  == FALSE
RFin(a)    == FALSE
RClose(x, y, abs, rel) == FALSE
=============================================================================
