------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* The seven conjugate component models as mathematics.                    *)
(*                                                                         *)
(* A group is nothing but the multiset of the values it holds (a *bag*: a  *)
(* function value -> nonzero integer count).  Everything the library       *)
(* reports about a group is a function of that bag and of the hyper-       *)
(* parameters `sh`:                                                        *)
(*    Stats(m, sh, B)     the sufficient statistics                        *)
(*    LnMarg(m, sh, B)    ln of the marginal likelihood                    *)
(*    LnPred(m, sh, B, v) ln of the posterior predictive                   *)
(*    Post(m, sh, B)      the posterior hyperparameters                    *)
(* Values and hyperparameters are numerals (see BigReal); a NIW value is a *)
(* sequence of numerals.                                                   *)
(***************************************************************************)
EXTENDS BigReal, Integers, Sequences, FiniteSets

EmptyBag == [v \in {} |-> 0]
Count(B, v) == IF v \in DOMAIN B THEN B[v] ELSE 0
BagAdd(B, v, n) ==
    LET c == Count(B, v) + n IN
    IF c = 0 THEN [w \in DOMAIN B \ {v} |-> B[w]]
    ELSE [w \in DOMAIN B \cup {v} |-> IF w = v THEN c ELSE B[w]]
BagUnion(A, B) ==
    LET c(v) == Count(A, v) + Count(B, v)
    IN  [v \in {w \in DOMAIN A \cup DOMAIN B : c(w) # 0} |-> c(v)]

SumSet(S, F(_)) == RSum([x \in S |-> F(x)])        \* exact sum of F over a finite set
RSizeOf(B) == RSum([v \in DOMAIN B |-> RInt(B[v])])
Size(B) == RToInt(RSizeOf(B))
RSize(B) == RInt(Size(B))

LnPi == "1.14472988584940017414342735135305871"
Half == "1/2"

\* ln Gamma(a+n) - ln Gamma(a)
LnRise(a, n) == IF REq(n, "0") THEN "0" ELSE RSub(RLnGamma(RAdd(a, n)), RLnGamma(a))
LnFact(v) == RLnGamma(RAdd(v, "1"))

SqDiff(x, y) == LET d == RSub(x, y) IN RMul(d, d)

---------------------------------------------------------------------------
(* small dense linear algebra over numerals, for NIW                       *)
Dim(x) == Len(x)
VAdd(x, y) == [i \in 1..Len(x) |-> RAdd(x[i], y[i])]
VScale(a, x) == [i \in 1..Len(x) |-> RMul(a, x[i])]
VZero(d) == [i \in 1..d |-> "0"]
Outer(x, y) == [i \in 1..Len(x) |-> [j \in 1..Len(y) |-> RMul(x[i], y[j])]]
MatAdd(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> RAdd(a[i][j], b[i][j])]]
MatScale(c, a) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> RMul(c, a[i][j])]]
MatZero(d) == [i \in 1..d |-> [j \in 1..d |-> "0"]]
RECURSIVE Det(_)
Det(a) ==         \* Gaussian elimination on an SPD matrix: pivots are nonzero
    IF Len(a) = 0 THEN "1"
    ELSE LET d == Len(a)
             p == a[1][1]
             sub == [i \in 1..(d - 1) |-> [j \in 1..(d - 1) |->
                        RSub(a[i+1][j+1], RDiv(RMul(a[i+1][1], a[1][j+1]), p))]]
         IN  RMul(p, Det(sub))
RECURSIVE VSumBag(_, _, _)
VSumBag(S, B, d) ==
    IF S = {} THEN VZero(d)
    ELSE LET v == CHOOSE v \in S : TRUE
         IN  VAdd(VScale(RInt(B[v]), v), VSumBag(S \ {v}, B, d))
RECURSIVE MSumBag(_, _, _)
MSumBag(S, B, d) ==
    IF S = {} THEN MatZero(d)
    ELSE LET v == CHOOSE v \in S : TRUE
         IN  MatAdd(MatScale(RInt(B[v]), Outer(v, v)), MSumBag(S \ {v}, B, d))
\* ln of the multivariate gamma function
LnMultiGamma(d, a) ==
    LET f[j \in 1..d] == RLnGamma(RAdd(a, RDiv(RInt(1 - j), "2")))
    IN  RAdd(RMul(RDiv(RInt(d * (d - 1)), "4"), LnPi), RSum(f))

---------------------------------------------------------------------------
(* sufficient statistics                                                   *)
SumValues(B) == LET f(v) == RMul(RInt(B[v]), v) IN SumSet(DOMAIN B, f)
MeanOf(B) == IF Size(B) = 0 THEN "0" ELSE RDiv(SumValues(B), RSize(B))
CtvOf(B) == LET m == MeanOf(B)
                f(v) == RMul(RInt(B[v]), SqDiff(v, m))
            IN  SumSet(DOMAIN B, f)
LogProd(B) == LET f(v) == RMul(RInt(B[v]), LnFact(v)) IN SumSet(DOMAIN B, f)

NiwDim(sh) == Len(sh.mu)
NiwSumX(sh, B) == VSumBag(DOMAIN B, B, NiwDim(sh))
NiwSumXX(sh, B) == MSumBag(DOMAIN B, B, NiwDim(sh))

(* bnb: the library scores counts up to the factor C(v+r-1, v), which does  *)
(* not depend on the parameters.  See DESIGN.md (known findings).    *)
LnChoose(v, r) == RSub(LnRise(r, v), LnFact(v))

---------------------------------------------------------------------------
(* posterior hyperparameters                                               *)
NichPost(sh, B) ==
    LET n == RSize(B)  m == MeanOf(B)
        kn == RAdd(sh.kappa, n)
        nn == RAdd(sh.nu, n)
    IN  [kappa |-> kn, nu |-> nn,
         mu |-> RDiv(RAdd(RMul(sh.kappa, sh.mu), SumValues(B)), kn),
         sigmasq |-> RDiv(RAdd(RAdd(RMul(sh.nu, sh.sigmasq), CtvOf(B)),
                               RDiv(RMul(RMul(n, sh.kappa), SqDiff(sh.mu, m)), kn)), nn)]
NiwPost(sh, B) ==
    LET n == RSize(B)  d == NiwDim(sh)
        sx == NiwSumX(sh, B)
        kn == RAdd(sh.kappa, n)
        mn == VScale(RDiv("1", kn), VAdd(VScale(sh.kappa, sh.mu), sx))
        \* psi + sum x x' + kappa mu mu' - kn mn mn'
        psi == MatAdd(MatAdd(sh.psi, NiwSumXX(sh, B)),
                    MatAdd(MatScale(sh.kappa, Outer(sh.mu, sh.mu)),
                         MatScale(RNeg(kn), Outer(mn, mn))))
    IN  [mu |-> mn, kappa |-> kn, psi |-> psi, nu |-> RAdd(sh.nu, n)]
Post(m, sh, B) ==
    CASE m = "gp"   -> [alpha |-> RAdd(sh.alpha, SumValues(B)),
                        inv_beta |-> RAdd(sh.inv_beta, RSize(B))]
      [] m = "bnb"  -> [alpha |-> RAdd(sh.alpha, RMul(sh.r, RSize(B))),
                        beta |-> RAdd(sh.beta, SumValues(B)), r |-> sh.r]
      [] m = "nich" -> NichPost(sh, B)
      [] m = "niw"  -> NiwPost(sh, B)

---------------------------------------------------------------------------
(* marginal likelihood                                                     *)
DpdBeta(sh, v) == IF v = "4294967295" THEN sh.beta0
                  ELSE IF v \in DOMAIN sh.betas THEN sh.betas[v] ELSE "0"

LnMargNiw(sh, B) ==
    LET d == NiwDim(sh)  p == NiwPost(sh, B)
        hd == RDiv(RInt(d), "2")
    IN  RSum(<< RMul(RMul(RNeg(RSize(B)), hd), LnPi),
                RSub(LnMultiGamma(d, RMul(p.nu, Half)), LnMultiGamma(d, RMul(sh.nu, Half))),
                RMul(RMul(sh.nu, Half), RLn(Det(sh.psi))),
                RNeg(RMul(RMul(p.nu, Half), RLn(Det(p.psi)))),
                RMul(hd, RSub(RLn(sh.kappa), RLn(p.kappa))) >>)

LnMarg(m, sh, B) ==
    CASE m = "bb" ->
           LET h == RInt(Count(B, "1"))  t == RInt(Count(B, "0")) IN
           RSub(RAdd(LnRise(sh.alpha, h), LnRise(sh.beta, t)),
                LnRise(RAdd(sh.alpha, sh.beta), RAdd(h, t)))
      [] m = "dd" ->
           LET f(v) == LnRise(sh.alphas[RToInt(v) + 1], RInt(B[v])) IN
           RSub(SumSet(DOMAIN B, f), LnRise(RSum(sh.alphas), RSize(B)))
      [] m = "dpd" ->
           LET f(v) == LnRise(RMul(sh.alpha, DpdBeta(sh, v)), RInt(B[v])) IN
           RSub(SumSet(DOMAIN B, f), LnRise(sh.alpha, RSize(B)))
      [] m = "gp" ->
           LET s == SumValues(B)  n == RSize(B)  ib == sh.inv_beta IN
           RSub(RAdd(LnRise(sh.alpha, s), RMul(sh.alpha, RLn(ib))),
                RAdd(RMul(RAdd(sh.alpha, s), RLn(RAdd(ib, n))), LogProd(B)))
      [] m = "bnb" ->       \* up to the coefficient of the base measure
           LET s == SumValues(B)  rn == RMul(sh.r, RSize(B)) IN
           RSub(RAdd(LnRise(sh.alpha, rn), LnRise(sh.beta, s)),
                LnRise(RAdd(sh.alpha, sh.beta), RAdd(rn, s)))
      [] m = "nich" ->
           LET p == NichPost(sh, B)  n == RSize(B) IN
           RSum(<< LnRise(RMul(sh.nu, Half), RMul(n, Half)),
                   RMul(Half, RSub(RLn(sh.kappa), RLn(p.kappa))),
                   RMul(RMul(sh.nu, Half), RLn(RMul(sh.nu, sh.sigmasq))),
                   RNeg(RMul(RMul(p.nu, Half), RLn(RMul(p.nu, p.sigmasq)))),
                   RNeg(RMul(RMul(n, Half), LnPi)) >>)
      [] m = "niw" -> LnMargNiw(sh, B)

(* posterior predictive, in closed form; MC_Models checks that it is the    *)
(* ratio of marginal likelihoods, and that the discrete ones sum to one.    *)
LnPred(m, sh, B, v) ==
    CASE m = "bb" ->
           RLn(RDiv(RAdd(IF v = "1" THEN sh.alpha ELSE sh.beta, RInt(Count(B, v))),
                    RAdd(RAdd(sh.alpha, sh.beta), RSize(B))))
      [] m = "dd" ->
           RLn(RDiv(RAdd(sh.alphas[RToInt(v) + 1], RInt(Count(B, v))),
                    RAdd(RSum(sh.alphas), RSize(B))))
      [] m = "dpd" ->
           RLn(RDiv(RAdd(RMul(sh.alpha, DpdBeta(sh, v)), RInt(Count(B, v))),
                    RAdd(sh.alpha, RSize(B))))
      [] m = "gp" ->
           LET p == Post("gp", sh, B) IN
           RSub(RAdd(LnRise(p.alpha, v), RMul(p.alpha, RLn(p.inv_beta))),
                RAdd(RMul(RAdd(p.alpha, v), RLn(RAdd(p.inv_beta, "1"))), LnFact(v)))
      [] m = "bnb" ->       \* up to LnChoose(v, r)
           LET p == Post("bnb", sh, B) IN
           RSub(RAdd(LnRise(p.alpha, p.r), LnRise(p.beta, v)),
                LnRise(RAdd(p.alpha, p.beta), RAdd(p.r, v)))
      [] m = "nich" ->
           LET p == NichPost(sh, B)
               scale == RDiv(RMul(RAdd(p.kappa, "1"), p.sigmasq), p.kappa)
           IN  RSum(<< LnRise(RMul(p.nu, Half), Half),
                       RNeg(RMul(Half, RAdd(LnPi, RLn(RMul(p.nu, scale))))),
                       RNeg(RMul(RMul(Half, RAdd(p.nu, "1")),
                                 RLn(RAdd("1", RDiv(SqDiff(v, p.mu), RMul(p.nu, scale)))))) >>)
      [] m = "niw" ->
           LET d == NiwDim(sh)  p == NiwPost(sh, B)
               dof == RSub(p.nu, RInt(d - 1))
               s == RDiv(RAdd(p.kappa, "1"), p.kappa)
               diff == VAdd(v, VScale("-1", p.mu))
               \* |psi s| and |psi s + diff diff'| = |psi s| (1 + diff' (psi s)^-1 diff)
               a == Det(MatScale(s, p.psi))
               b == Det(MatAdd(MatScale(s, p.psi), Outer(diff, diff)))
           IN  RSum(<< RSub(RLnGamma(RMul(Half, RAdd(dof, RInt(d)))), RLnGamma(RMul(Half, dof))),
                       RNeg(RMul(RDiv(RInt(d), "2"), LnPi)),
                       RNeg(RMul(Half, RLn(a))),
                       RNeg(RMul(RMul(Half, RAdd(dof, RInt(d))), RLn(RDiv(b, a)))) >>)

Models == {"bb", "dd", "dpd", "gp", "bnb", "nich", "niw"}
=============================================================================
