------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* Random choices as mathematics.  A sampler of a discrete choice is given *)
(* a point u of the unit interval and weights p; it cuts the interval into *)
(* consecutive pieces of length p_i / sum(p) and returns the piece u falls *)
(* into.  (Frequencies over a regular grid of points, and over many random *)
(* draws, follow, and are judged as well.)                                 *)
(***************************************************************************)
EXTENDS BigReal, Integers, Sequences, FiniteSets

Below(p, i) == RSum(SubSeq(p, 1, i - 1))
Total(p) == RSum(p)
\* choice i (1-based) is right for the point t of [0, Total(p)), up to eps
Chosen(p, i, t, eps) ==
    /\ i \in 1..Len(p)
    /\ RLt("0", p[i])
    /\ RLe(RSub(Below(p, i), eps), t)
    /\ RLe(t, RAdd(RAdd(Below(p, i), p[i]), eps))

\* likelihoods of scores, relative to the largest one
Higher(a, b) == IF a = "-inf" THEN b ELSE IF b = "-inf" THEN a ELSE RMax(a, b)
RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 1 THEN s[1] ELSE Higher(s[k], MaxTo(s, k - 1))
MaxOf(s) == MaxTo(s, Len(s))
Lik(x, mx) == IF x = "-inf" THEN "0"
              ELSE LET d == RSub(x, mx) IN IF RLt(d, "-200") THEN "0" ELSE RExp(d)
Liks(s) == LET mx == MaxOf(s) IN [i \in 1..Len(s) |-> Lik(s[i], mx)]

\* |k - n p| within six standard deviations of a binomial count (and k = 0 or n
\* where p says so); p may be off by e
CountOk(k, n, p, e) ==
    /\ REq(p, "0") => k = 0
    /\ REq(p, "1") => k = n
    /\ RClose(RInt(k), RMul(RInt(n), p),
              RAdd(RAdd("4", RMul(RInt(n), e)),
                   RMul("6", RSqrt(RMax("0", RMul(RInt(n), RMul(p, RSub("1", p))))))), "0")
\* the same for a p known to lie in lo..hi
CountIn(k, n, lo, hi, e) ==
    LET dev(p) == RAdd(RAdd("4", RMul(RInt(n), e)), RMul("6", RSqrt(RMax("0", RMul(RInt(n), RMul(p, RSub("1", p)))))))
    IN  /\ RLe(RSub(RMul(RInt(n), lo), dev(lo)), RInt(k))
        /\ RLe(RInt(k), RAdd(RMul(RInt(n), hi), dev(hi)))
\* |k - n p| on a regular grid of n points: the ends of a piece only
GridOk(k, n, p, e) ==
    /\ REq(p, "0") => k = 0
    /\ RClose(RInt(k), RMul(RInt(n), p), RAdd("2", RMul(RInt(n), e)), "0")

(* distribution functions of the continuous samplers *)
NormalCdf(x, mean, var) ==
    RMul("1/2", RAdd("1", RErf(RDiv(RSub(x, mean), RSqrt(RMul("2", var))))))
GammaCdf(x, a, scale) == IF RLe(x, "0") THEN "0" ELSE RGammaP(a, RDiv(x, scale))
ChisqCdf(x, nu) == GammaCdf(x, RMul("1/2", nu), "2")
BetaCdf(x, a, b) == IF RLe(x, "0") THEN "0" ELSE IF RLe("1", x) THEN "1" ELSE RBetaI(a, b, x)
\* Student t with location, squared scale
StudentCdf(x, nu, mu, s2) ==
    LET d == RSub(x, mu)
        z == RDiv(RMul(d, d), s2)
        tail == RMul("1/2", RBetaI(RMul("1/2", nu), "1/2", RDiv(nu, RAdd(nu, z))))
    IN  IF RLe(d, "0") THEN tail ELSE RSub("1", tail)
\* counts
PoissonCdf(k, mean) == RSub("1", RGammaP(RAdd(k, "1"), mean))
NegBinCdf(k, p, r) == RBetaI(r, RAdd(k, "1"), p)
=============================================================================
