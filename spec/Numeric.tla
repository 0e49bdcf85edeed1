------------------------------- MODULE Numeric -------------------------------
(***************************************************************************)
(* What the special functions, the vector operations and the normalisation  *)
(* of scores compute, and how accurately: exact mathematics (BigReal) on    *)
(* the given numbers, and a tolerance for each function.                    *)
(*                                                                          *)
(* -inf is a legitimate score (an impossible outcome); every operator below *)
(* that accepts scores says what it means for it.                           *)
(***************************************************************************)
EXTENDS BigReal, Integers, Sequences, FiniteSets

Inf == "inf"
NegInf == "-inf"
Pi == "3.14159265358979323846"
EulerGamma == "0.57721566490153286061"
MinNormal == "1.17549436e-38"
U == "6e-8"                                \* half a unit in the last place of a single, relative
F(x) == IF x \in {Inf, NegInf, "nan"} THEN x ELSE RF32(x)      \* the single written as x
Fs(v) == [i \in 1..Len(v) |-> F(v[i])]
Mag(x) == RAdd("1", RAbs(x))

---------------------------------------------------------------------------
(* functions of one argument: exact value, and tolerance                    *)
LnGammaNu(x) ==                            \* ln Gamma(x/2 + 1/2) - ln Gamma(x/2)
    LET z == RMul("1/2", x) IN
    IF RLt("1e6", x)                       \* its asymptotic series, where the difference would cancel
    THEN RAdd(RSub(RMul("1/2", RLn(z)), RDiv("1/8", z)), RDiv("1/192", RMul(z, RMul(z, z))))
    ELSE RSub(RLnGamma(RAdd(z, "1/2")), RLnGamma(z))
Exact1(f, x) ==
    CASE f \in {"fast_log", "eric_log", "log"} -> RLn(x)
      [] f \in {"fast_exp", "exp"} -> RExp(x)
      [] f \in {"fast_lgamma", "lgamma", "gammaln"} -> RLnGamma(x)
      [] f \in {"fast_lgamma_nu", "lgamma_nu"} -> LnGammaNu(x)
      [] f = "factorial" -> RMul("1", RExp(RLnGamma(RAdd(x, "1"))))
Domain1(f, x) ==
    CASE f \in {"fast_log", "eric_log", "log"} -> RLe(MinNormal, x)
      [] f \in {"fast_exp", "exp"} -> TRUE
      [] f \in {"fast_lgamma", "lgamma", "gammaln"} -> RLe(MinNormal, x) /\ RLe(x, "1e36")
      [] f \in {"fast_lgamma_nu", "lgamma_nu"} -> RLe(MinNormal, x) /\ RLe(x, "1e36")
\* accuracy over the whole domain (fast_exp: relative)
Tol1(f, x, y) ==
    CASE f \in {"fast_log", "eric_log"} -> RAdd("6.2e-5", RMul("1.5e-7", RAbs(y)))
      [] f = "fast_exp" -> "8e-6"
      [] f = "fast_lgamma" -> RMul(IF RLt(x, "2.5") THEN "2e-6" ELSE "1.2e-5", Mag(y))
      [] f = "fast_lgamma_nu" -> IF RLt(x, "0.0625") \/ RLe("4294967295", x) THEN RMul("1e-6", Mag(y))
                                 ELSE IF RLt(x, "16") THEN "0.0155" ELSE "0.0085"
Close1(f, x, y) ==
    IF f = "fast_exp"
    THEN IF x = NegInf \/ RLt(x, "-87.3") THEN RFin(y) /\ RLe("0", y) /\ RLe(y, "1.4e-38")
         ELSE IF RLt("88.7", x) THEN y = Inf \/ (RFin(y) /\ RLe("3.3e38", y))
         ELSE RClose(y, RExp(x), "0", "8e-6")
    ELSE IF f = "gammaln" THEN RClose(y, RLnGamma(x), "1e-13", "1e-13")
    ELSE LET e == Exact1(f, x) IN RClose(y, e, Tol1(f, x, e), "0")

---------------------------------------------------------------------------
(* a cubic P(t) = c1 + c2 t + c3 t^2 + c4 t^3 that stands for f on [a, a+w] *)
Poly(c, t) == RAdd(c[1], RMul(t, RAdd(c[2], RMul(t, RAdd(c[3], RMul(t, c[4]))))))
\* P meets f at four equidistant points: what is left of f - P is the fourth
\* derivative times (w/3)^4 / 24, which the bound below covers for every f here
\* (|f''''| <= 6/x^4 + 2/x^3 for the logarithms and log-gammas; = f for exp)
Stands(f, c, a, w, rel) ==
    \A i \in 0..3 : LET t == RDiv(RInt(i), "3")
                        y == Exact1(f, RAdd(a, RMul(w, t)))
                    IN  RClose(Poly(c, t), y, IF rel THEN "0" ELSE "1e-9", IF rel THEN "1e-10" ELSE "1e-9")
Left(f, a, w) ==
    LET s == RDiv(w, "3")
        s4 == RMul(RMul(s, s), RMul(s, s))
        a3 == RMul(a, RMul(a, a))
    IN  IF f = "fast_exp" THEN RDiv(RMul(s4, RExp(w)), "24")
        ELSE RAdd(RDiv(RMul(s4, "1/4"), RMul(a3, a)), IF f = "fast_lgamma" THEN RDiv(RMul(s4, "1/12"), a3) ELSE "0")

---------------------------------------------------------------------------
(* functions of several arguments: exact value and tolerance, as a pair     *)
LnBeta(a, b) == RSub(RAdd(RLnGamma(a), RLnGamma(b)), RLnGamma(RAdd(a, b)))
LnBetaSize(a, b) == RAdd(RAdd(Mag(RLnGamma(a)), Mag(RLnGamma(b))), Mag(RLnGamma(RAdd(a, b))))
LnBinom(n, k) == RSub(RLnGamma(RAdd(n, "1")), RAdd(RLnGamma(RAdd(k, "1")), RLnGamma(RAdd(RSub(n, k), "1"))))
LnBinomSize(n, k) == RAdd(Mag(RLnGamma(RAdd(n, "1"))), RAdd(Mag(RLnGamma(RAdd(k, "1"))), Mag(RLnGamma(RAdd(RSub(n, k), "1")))))
Lse2(x, y) == LET mx == RMax(x, y)  mn == RMin(x, y)  d == RSub(mn, mx)
              IN  IF RLt(d, "-200") THEN mx ELSE RAdd(mx, RLn(RAdd("1", RExp(d))))
RECURSIVE MultiSum(_, _)
MultiSum(d, a) == IF d = 0 THEN "0"
                  ELSE RAdd(MultiSum(d - 1, a), RLnGamma(RAdd(a, RDiv(RInt(1 - d), "2"))))
RECURSIVE MultiSize(_, _)
MultiSize(d, a) == IF d = 0 THEN "0"
                   ELSE RAdd(MultiSize(d - 1, a), Mag(RLnGamma(RAdd(a, RDiv(RInt(1 - d), "2")))))
\* log density of a Student t with precision lambda
StudentT(x, nu, mu, la) ==
    LET d == RSub(x, mu) IN
    RSub(RAdd(LnGammaNu(nu), RMul("1/2", RLn(RDiv(la, RMul(Pi, nu))))),
         RMul(RMul("1/2", RAdd(nu, "1")), RLn(RAdd("1", RDiv(RMul(la, RMul(d, d)), nu)))))
StudentTail(x, nu, mu, la) ==              \* the factor before its last logarithm
    RMul("1/2", RAdd(nu, "1"))
Scores2 == {"log_sum_exp", "fast_log_sum_exp"}
Exact(f, x) ==
    CASE f \in Scores2 -> Lse2(x[1], x[2])
      [] f \in {"log_beta", "fast_log_beta"} -> LnBeta(x[1], x[2])
      [] f \in {"log_binom", "fast_log_binom"} -> LnBinom(x[1], x[2])
      [] f = "fast_log_factorial" -> RLnGamma(RAdd(x[1], "1"))
      [] f = "lmultigamma" -> LET d == RToInt(x[1]) IN
             RAdd(MultiSum(d, x[2]), RMul(RDiv(RInt(d * (d - 1)), "4"), RLn(Pi)))
      [] f \in {"score_student_t", "fast_score_student_t"} -> StudentT(x[1], x[2], x[3], x[4])
      [] OTHER -> Exact1(f, x[1])
Tol(f, x, e) ==
    CASE f = "log_sum_exp" -> RAdd("3e-7", RMul("3e-7", RAdd(RAbs(x[1]), RAbs(x[2]))))
      [] f = "fast_log_sum_exp" -> RAdd("7e-5", RMul("3e-7", RAdd(RAbs(x[1]), RAbs(x[2]))))
      [] f = "log_beta" -> RMul("2.5e-7", LnBetaSize(x[1], x[2]))
      [] f = "fast_log_beta" -> RMul("1.2e-5", LnBetaSize(x[1], x[2]))
      [] f = "log_binom" -> RMul("2.5e-7", LnBinomSize(x[1], x[2]))
      [] f = "fast_log_binom" -> RMul("1.2e-5", LnBinomSize(x[1], x[2]))
      [] f = "fast_log_factorial" -> RMul(IF RLt(x[1], "64") THEN "1.3e-7" ELSE "4e-6", RMax("1", e))
      [] f = "lmultigamma" -> RMul("1.2e-5", RAdd(Mag(e), MultiSize(RToInt(x[1]), x[2])))
      [] f = "score_student_t" ->
             RAdd(RMul("3e-7", RAdd(Mag(e), Mag(RLnGamma(RMul("1/2", x[2]))))), RMul("2e-7", StudentTail(x[1], x[2], x[3], x[4])))
      [] f = "fast_score_student_t" ->
             RAdd("0.0157", RAdd(RMul("1e-6", Mag(e)), RMul("6.4e-5", StudentTail(x[1], x[2], x[3], x[4]))))
FnOk(f, x, y) ==
    IF f \in Scores2 /\ NegInf \in {x[1], x[2]}
    THEN LET m == IF x[1] = NegInf THEN x[2] ELSE x[1] IN        \* the other one is what remains
         IF m = NegInf THEN y = NegInf \/ (RFin(y) /\ RLe(y, "-3.4e38"))
         ELSE RClose(y, m, Tol(f, <<m, m>>, m), "0")
    ELSE IF f \in {"log_beta", "fast_log_beta"} /\ (RLe(x[1], "0") \/ RLe(x[2], "0")) THEN y = NegInf
    ELSE IF Len(x) = 1 /\ f # "fast_log_factorial" THEN Close1(f, x[1], y)
    ELSE LET e == Exact(f, x) IN RClose(y, e, Tol(f, x, e), "0")

---------------------------------------------------------------------------
(* rows of log Stirling numbers of the first kind                           *)
\* from n = 32 on: a soft minimum of two approximations (see the comment in
\* special.cc and DLMF 26.8.40)
Approx1(n, k) == RAdd(RSub(RLnGamma(RInt(n)), RLnGamma(RInt(k))),
                      RMul(RInt(k - 1), RLn(RAdd(EulerGamma, RLn(RInt(n - 1))))))
Approx2(n, k) == RSub(RMul(RInt(n - k), RLn(RDiv(RMul(RInt(n), RInt(n)), "2"))), RLnGamma(RInt(n - k + 1)))
SoftMin(n, k) == LET s == RDiv(RInt(n), "3") IN
                 RNeg(RMul(s, Lse2(RNeg(RDiv(Approx1(n, k), s)), RNeg(RDiv(Approx2(n, k), s)))))
StirlingTol(n, y) == IF n < 32 THEN RMul("3e-7", Mag(y)) ELSE RAdd(RMul(RInt(n), "2.6e-5"), RMul("1e-6", Mag(y)))
EntryOk(n, k, y, exact) ==                 \* exact: ln S(n, k)
    \/ RClose(y, exact, StirlingTol(n, exact), "0")
    \/ n >= 32 /\ LET a == SoftMin(n, k) IN RClose(y, a, StirlingTol(n, a), "0")
\* only the slopes matter to users of the approximation
SlopesOk(n, r, ex) == \A k \in 2..n : RClose(RSub(r[k + 1], r[k]), RSub(ex[k], ex[k - 1]), "0.5", "0")
RowOk(n, r) ==
    /\ Len(r) = n + 1
    /\ n > 0 => r[1] = NegInf
    /\ RClose(r[n + 1], "0", "0", "0")
    /\ LET S == RStirling(n)
           ex == [k \in 1..n |-> RLn(S[k + 1])]
       IN  /\ \A k \in 1..(n - 1) : RFin(r[k + 1]) /\ EntryOk(n, k, r[k + 1], ex[k])
           /\ n >= 32 => SlopesOk(n, r, ex)
\* chosen entries of a long row: every entry is a number, those asked for are
\* the soft minimum, and S(n, 1) is about (n - 1)!
LongRowOk(n, len, bad, ks, r) ==
    /\ len = n + 1 /\ bad = 0 /\ Len(r) = Len(ks)
    /\ \A i \in 1..Len(ks) :
         LET k == RToInt(ks[i]) IN
         CASE k = 0 -> r[i] = NegInf
           [] k = n -> RClose(r[i], "0", "0", "0")
           [] OTHER -> /\ RFin(r[i])
                       /\ LET a == SoftMin(n, k) IN RClose(r[i], a, StirlingTol(n, a), "0")
                       /\ k = 1 => RClose(r[i], RLnGamma(RInt(n)), RMul(RInt(n), "2.6e-5"), "0.01")
ASSUME RStirling(0) = <<"1">> /\ RStirling(4) = <<"0", "6", "11", "6", "1">>
ASSUME \A n \in 1..9 : LET P == RStirling(n - 1)  R == RStirling(n) IN
          \A k \in 0..n : R[k + 1] = RAdd(IF k < n THEN RMul(RInt(n - 1), P[k + 1]) ELSE "0", IF k > 0 THEN P[k] ELSE "0")

---------------------------------------------------------------------------
(* normalisation of scores                                                  *)
Possible(s) == {i \in 1..Len(s) : s[i] # NegInf}
RECURSIVE Largest(_, _)
Largest(s, k) == IF k = 0 THEN NegInf
                 ELSE LET m == Largest(s, k - 1) IN
                      IF s[k] = NegInf THEN m ELSE IF m = NegInf THEN s[k] ELSE RMax(m, s[k])
Weight(x, mx) == IF x = NegInf THEN "0"
                 ELSE LET d == RSub(x, mx) IN IF RLt(d, "-705") THEN "0" ELSE RExp(d)
Weights(s, mx) == [i \in 1..Len(s) |-> Weight(s[i], mx)]
SumTol(n) == RAdd("1.5e-5", RMul(RInt(n), "7e-8"))
LseOk(s, y, single) ==
    IF s = <<>> THEN RClose(y, "0", "0", "0")       \* as documented: nothing to sum
    ELSE LET mx == Largest(s, Len(s)) IN
         IF mx = NegInf THEN y = NegInf \/ (RFin(y) /\ RLe(y, "-3.4e38"))   \* infinities may saturate
         ELSE RClose(y, RAdd(mx, RLn(RSum(Weights(s, mx)))),
                     IF single THEN RAdd(RAdd("6.3e-5", SumTol(Len(s))), RMul("3e-7", RAbs(mx)))
                     ELSE RMul("1e-13", RAdd(RInt(Len(s)), RAbs(mx))), "0")
\* weights relative to the largest score; what underflows may be zero
LikelihoodsOk(s, r) ==
    LET mx == Largest(s, Len(s))  w == Weights(s, mx) IN
    Len(r) = Len(s) /\ \A i \in 1..Len(s) : RFin(r[i]) /\ RLe("0", r[i]) /\ RClose(r[i], w[i], "1.5e-38", "1.5e-5")
TotalOk(s, y) == LET mx == Largest(s, Len(s)) IN RClose(y, RSum(Weights(s, mx)), "0", SumTol(Len(s)))
ProbsOk(s, r, single) ==
    LET mx == Largest(s, Len(s))  w == Weights(s, mx)  t == RSum(w) IN
    Len(r) = Len(s) /\ \A i \in 1..Len(s) : RFin(r[i]) /\ RLe("0", r[i]) /\
        RClose(r[i], RDiv(w[i], t), IF single THEN "1.5e-38" ELSE "1e-300", IF single THEN RMul("2", SumTol(Len(s))) ELSE "1e-11")

---------------------------------------------------------------------------
(* vector operations: the result at one place of io, from what was there    *)
Unary == {"exp", "log", "lgamma", "lgamma_nu", "exp2", "log2", "lgamma2", "lgamma_nu2"}
FnOf(op) == CASE op \in {"exp", "exp2"} -> "fast_exp" [] op \in {"log", "log2"} -> "fast_log"
              [] op \in {"lgamma", "lgamma2"} -> "fast_lgamma" [] op \in {"lgamma_nu", "lgamma_nu2"} -> "fast_lgamma_nu"
InPlace == {"exp", "log", "lgamma", "lgamma_nu"}
PlaceOk(op, io, a, b, s, y) ==
    LET sum(p, q, z, sz) == RClose(y, RAdd(RAdd(p, q), z), RMul("2.5e-7", sz), "0") IN
    CASE op = "zero" -> REq(y, "0")
      [] op = "negate" -> REq(F(y), RNeg(io))
      [] op = "shift" -> REq(F(y), RF32(RAdd(io, s)))
      [] op = "scale" -> RClose(F(y), RMul(io, s), "1.5e-38", U)
      [] op = "add" -> REq(F(y), RF32(RAdd(io, a)))
      [] op = "negate_and_add" -> REq(F(y), RF32(RSub(a, io)))
      [] op = "add_add" -> sum(io, a, b, RAdd(RAbs(io), RAdd(RAbs(a), RAbs(b))))
      [] op = "add_subtract" -> sum(io, a, RNeg(b), RAdd(RAbs(io), RAdd(RAbs(a), RAbs(b))))
      [] op = "add_subtract1" -> sum(io, s, RNeg(b), RAdd(RAbs(io), RAdd(RAbs(s), RAbs(b))))
      [] op = "multiply_add" -> sum(io, RMul(a, b), "0", RAdd(RAbs(io), RMul("2", RAbs(RMul(a, b)))))
      [] op \in Unary -> Close1(FnOf(op), IF op \in InPlace THEN io ELSE a, y)
Reduce == {"min", "max", "sum", "dot"}
Seq2(io, a) == [i \in 1..Len(io) |-> RMul(io[i], a[i])]
AbsOf(v) == [i \in 1..Len(v) |-> RAbs(v[i])]
ReduceOk(op, io, a, y) ==
    CASE op = "min" -> (\E i \in 1..Len(io) : REq(io[i], y)) /\ \A i \in 1..Len(io) : RLe(y, io[i])
      [] op = "max" -> (\E i \in 1..Len(io) : REq(io[i], y)) /\ \A i \in 1..Len(io) : RLe(io[i], y)
      [] op = "sum" -> RClose(y, RSum(io), RMul(RMul(RInt(Len(io)), "7e-8"), RSum(AbsOf(io))), "0")
      [] op = "dot" -> LET p == Seq2(io, a) IN RClose(y, RSum(p), RMul(RMul(RInt(Len(io) + 1), "7e-8"), RSum(AbsOf(p))), "0")
=============================================================================
