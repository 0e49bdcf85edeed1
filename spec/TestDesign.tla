------------------------------ MODULE TestDesign ------------------------------
(***************************************************************************)
(* The promise of a p-value, by the exact law: for N samples over K values  *)
(* with each probability vector of a grid, an experiment deals out the      *)
(* samples value by value; in every final state the p-value is computed,    *)
(* and the chance of the rejected outcomes is compared with alpha.          *)
(* Denominator says by what the squared deviations are divided: "mean" is   *)
(* Pearson's test, "variance" rejects far too often (sensitivity witness).  *)
(***************************************************************************)
EXTENDS GoodnessOfFit, TLC
CONSTANTS N, K, Parts, Denominator
VARIABLES p, c, done
vars == <<p, c, done>>
Levels == {"0.1", "0.05", "0.01"}
RECURSIVE Comp(_, _, _)
Comp(n, k, least) ==                       \* n as a sum of k parts, each at least `least`
    IF k = 1 THEN (IF n >= least THEN {<<n>>} ELSE {})
    ELSE UNION {{<<a>> \o r : r \in Comp(n - a, k - 1, least)} : a \in least..n}
Outcomes == Comp(N, K, 0)
Grid == {w \in Comp(Parts, K, 1) : \A i \in 1..(K - 1) : w[i] <= w[i + 1]}
Prob(w) == [i \in 1..K |-> RDiv(RInt(w[i]), RInt(Parts))]
Stat(q, d) == RSum([i \in 1..K |-> LET m == RMul(RInt(N), q[i]) IN
                 RDiv(RMul(RSub(RInt(d[i]), m), RSub(RInt(d[i]), m)), IF Denominator = "mean" THEN m ELSE RMul(m, RSub("1", q[i])))])
P(q, d) == Upper(Stat(q, d), K - 1)

Init == p \in {Prob(w) : w \in Grid} /\ c = <<>> /\ done = FALSE
Deal == /\ ~done /\ Len(c) < K
        /\ IF Len(c) = K - 1 THEN c' = Append(c, N - SumTo(c, Len(c)))
           ELSE \E k \in 0..(N - SumTo(c, Len(c))) : c' = Append(c, k)
        /\ UNCHANGED <<p, done>>
\* the whole experiment at once, when nothing has been dealt yet
Judge == c = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<p, c>>
Next == Deal \/ Judge
Spec == Init /\ [][Next]_vars

Proper == Len(c) = K => /\ SumTo(c, K) = N
                        /\ LET y == P(p, c) IN RFin(y) /\ RLe("0", y) /\ RLe(y, "1")
PerfectFit == (Len(c) = K /\ \A i \in 1..K : REq(RInt(c[i]), RMul(RInt(N), p[i]))) => P(p, c) = "1"
SizeAt(alpha) == LET r == {d \in Outcomes : RLe(P(p, d), alpha)} IN
                 IF r = {} THEN "0" ELSE RSum([d \in r |-> Chance(p, d, N)])
HonestTest == done => \A a \in Levels : Honest(SizeAt(a), a)
UsefulTest == done => \A a \in Levels : Useful(SizeAt(a), a)
LawSumsToOne == done => RClose(RSum([d \in Outcomes |-> Chance(p, d, N)]), "1", "1e-9", "0")
=============================================================================
