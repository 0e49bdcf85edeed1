---------------------------- MODULE GoodnessOfFit ----------------------------
(***************************************************************************)
(* What distributions.util says about samples, over exact numbers:          *)
(* Pearson's test of counts against probabilities (with whatever lies       *)
(* beyond a truncation as one more bin), the tests of continuous samples    *)
(* that are reduced to it, and the summaries of samples (bins, histogram,   *)
(* divergence).  A p-value is a promise about the sampling law: under the   *)
(* law tested, at most a fraction alpha of the outcomes may have one below  *)
(* alpha; Size makes that a sum over the exact multinomial law.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigReal

Total(c) == RSum(c)
Ns(s, k) == {i \in 1..Len(s) : s[i] = k}
Upper(x, dof) == IF RLe(x, "0") THEN "1" ELSE RSub("1", RGammaP(RDiv(RInt(dof), "2"), RDiv(x, "2")))
Term(p, c, n) == LET m == RMul(n, p) IN RDiv(RMul(RSub(c, m), RSub(c, m)), m)
Chi2(p, c, n) == RSum([i \in 1..Len(p) |-> IF REq(p[i], "0") THEN "0" ELSE Term(p[i], c[i], n)])
Bins(p) == Cardinality({i \in 1..Len(p) : ~REq(p[i], "0")})
Certain(p) == {i \in 1..Len(p) : REq(p[i], "1")}
Impossible(p, c) == \E i \in 1..Len(p) : REq(p[i], "0") /\ ~REq(c[i], "0")

\* the probability beyond what is listed; a bin of less than about one expected
\* sample may be left out (asymptotics say nothing about it)
Rest(p) == RSub("1", RSum(p))
WithRest(p, c, n) == Upper(RAdd(Chi2(p, c, n), Term(Rest(p), RSub(n, Total(c)), n)), Bins(p))
WithoutRest(p, c, n) == Upper(Chi2(p, c, n), Bins(p) - 1)
PValues(p, c, n, truncated) ==             \* the acceptable ones
    IF Impossible(p, c) THEN {"0"}
    ELSE IF Certain(p) # {} THEN {IF REq(c[CHOOSE i \in Certain(p) : TRUE], n) THEN "1" ELSE "0"}
    ELSE IF ~truncated THEN {WithoutRest(p, c, n)}
    ELSE (IF RLe(RMul(n, Rest(p)), "0.9") THEN {} ELSE {WithRest(p, c, n)})
         \cup (IF RLe(RMul(n, Rest(p)), "1.1") /\ Bins(p) > 1 THEN {WithoutRest(p, c, n)} ELSE {})
Same(y, want) == RFin(y) /\ RLe("0", y) /\ RLe(y, "1") /\ \E w \in want : RClose(y, w, "1e-8", "1e-6")

\* all samples against a table of probabilities, of which the likeliest few count
CountOf(samples, ks) == [i \in 1..Len(ks) |-> RInt(Cardinality(Ns(samples, ks[i])))]
Pick(v, ix) == [j \in 1..Len(ix) |-> v[ix[j]]]
DiscretePValues(samples, ks, p, ix) ==     \* ix: which values are listed
    PValues(Pick(p, ix), Pick(CountOf(samples, ks), ix), RInt(Len(samples)), Len(ix) < Len(ks))
Above(p, i) == {j \in 1..Len(p) : RLt(p[i], p[j])}
NotBelow(p, i) == {j \in 1..Len(p) : RLe(p[i], p[j])}
Sure(p, m) == {i \in 1..Len(p) : Cardinality(NotBelow(p, i)) <= m}
Tied(p, m) == {i \in 1..Len(p) : Cardinality(Above(p, i)) < m} \ Sure(p, m)
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<i>> \o Listing(S \ {i})
RECURSIVE Choices(_, _)
Choices(S, n) == IF n = 0 THEN {{}} ELSE IF S = {} THEN {}
                 ELSE LET i == CHOOSE i \in S : TRUE IN
                      Choices(S \ {i}, n) \cup {{i} \cup c : c \in Choices(S \ {i}, n - 1)}
\* which m values may be listed: the likeliest; among equal ones any choice, made without looking at the samples
Likeliest(p, m) == {Listing(Sure(p, m) \cup c) : c \in Choices(Tied(p, m), m - Cardinality(Sure(p, m)))}

\* samples of the unit interval, in equal bins (the last one closed)
Cut(n) == CHOOSE k \in 1..200 : RLt(RSub(RExp(RMul(RLn(RInt(n)), "0.333")), RInt(k)), "0.5") /\ RLe("-0.5", RSub(RExp(RMul(RLn(RInt(n)), "0.333")), RInt(k)))
BinOf(u, k) == LET b == RToInt(RFloor(RMul(u, RInt(k)))) IN IF b >= k THEN k ELSE b + 1
Unif(us) == LET k == Cut(Len(us))
                b == [i \in 1..Len(us) |-> BinOf(us[i], k)]
                c == [j \in 1..k |-> RInt(Cardinality(Ns(b, j)))] IN
            PValues([j \in 1..k |-> RDiv("1", RInt(k))], c, RInt(Len(us)), FALSE)
NearEdge(u, k) == LET x == RMul(u, RInt(k)) IN RLt(RAbs(RSub(x, RFloor(RAdd(x, "0.5")))), "1e-7")
\* n gaps of sorted samples times their density are exponential in the limit
Spacing(x, q) ==
    [i \in 1..(Len(x) - 1) |-> RSub("1", RExp(RNeg(RMul(RInt(Len(x)), RMul(RSub(x[i + 1], x[i]), RSqrt(RMul(q[i], q[i + 1])))))))]
Sorted(x) == \A i \in 1..(Len(x) - 1) : RLe(x[i], x[i + 1])

\* k bins of consecutive samples, equally full up to one
RECURSIVE SumTo(_, _)
SumTo(c, k) == IF k = 0 THEN 0 ELSE c[k] + SumTo(c, k - 1)
BinsOk(x, k, c, lo, hi, ends) ==           \* x: the samples in order; ends: the support or <<>>
    /\ Len(c) = k /\ Len(lo) = k /\ Len(hi) = k
    /\ SumTo(c, k) = Len(x)
    /\ \A i, j \in 1..k : c[i] - c[j] <= 1
    /\ \A i \in 1..k :
         /\ REq(lo[i], IF i = 1 /\ ends # <<>> THEN ends[1] ELSE x[SumTo(c, i - 1) + 1])
         /\ REq(hi[i], IF i = k THEN (IF ends # <<>> THEN ends[2] ELSE x[Len(x)]) ELSE x[SumTo(c, i) + 1])
HistogramOk(s, m, v) == Len(v) = m /\ \A i \in 1..m : v[i] = Cardinality(Ns(s, i - 1))
Divergence(score, n) == RSub(RNeg(RDiv(score, n)), RLn(n))

\* the exact law of counts, and how often a test with p-values ys rejects at alpha
LnFact(c) == RLnGamma(RAdd(c, "1"))
Chance(p, c, n) ==
    IF \E i \in 1..Len(p) : REq(p[i], "0") /\ c[i] # 0 THEN "0"
    ELSE RExp(RAdd(LnFact(RInt(n)), RSum([i \in 1..Len(p) |-> IF c[i] = 0 THEN "0"
              ELSE RSub(RMul(RInt(c[i]), RLn(p[i])), LnFact(RInt(c[i])))])))
Size(p, cs, ys, n, alpha) ==
    LET r == {i \in 1..Len(cs) : RLe(ys[i], alpha)} IN
    IF r = {} THEN "0" ELSE RSum([i \in r |-> Chance(p, cs[i], n)])
Honest(size, alpha) == RLe(size, RMul("2.5", alpha))
Useful(size, alpha) == RLe(RMul("0.25", alpha), size)
=============================================================================
