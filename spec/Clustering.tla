----------------------------- MODULE Clustering -----------------------------
(***************************************************************************)
(* Clustering priors as laws on partitions, and the packed mixture that    *)
(* holds a partition under construction.                                   *)
(*                                                                         *)
(* A partition in progress is a sequence P of groups                       *)
(*      [gid |-> global id, n |-> size, bag |-> values held]               *)
(* with `next` the first global id never used.  Groups of size 0 are the   *)
(* "ephemeral" empty groups; their number never changes.                   *)
(***************************************************************************)
EXTENDS BigReal, Integers, Sequences, FiniteSets

---------------------------------------------------------------------------
(* packed sequences                                                        *)
Sizes(P) == [i \in 1..Len(P) |-> P[i].n]
Gids(P) == [i \in 1..Len(P) |-> P[i].gid]
EmptyPos(P) == {i \in 1..Len(P) : P[i].n = 0}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
SampleSize(P) == SumSeq(Sizes(P))
NoBag == [v \in {} |-> 0]
Fresh(gid, n) == [gid |-> gid, n |-> n, bag |-> NoBag]
InitPacked(cs) == [i \in 1..Len(cs) |-> Fresh(i - 1, cs[i])]
BagPut(b, v, n) ==
    LET c == (IF v \in DOMAIN b THEN b[v] ELSE 0) + n IN
    IF c = 0 THEN [w \in DOMAIN b \ {v} |-> b[w]]
    ELSE [w \in DOMAIN b \cup {v} |-> IF w = v THEN c ELSE b[w]]

\* the last element takes the place of element i
PackedRemove(s, i) == [k \in 1..(Len(s) - 1) |-> IF k = i THEN s[Len(s)] ELSE s[k]]

CanInit(cs) == \E i \in 1..Len(cs) : cs[i] = 0
CanAdd(P, pos, n) == pos \in 1..Len(P) /\ n > 0
CanRem(P, pos, n) == pos \in 1..Len(P) /\ n > 0 /\ n <= P[pos].n
AddFlag(P, pos) == P[pos].n = 0                    \* a new empty group appears
RemFlag(P, pos, n) == P[pos].n = n                 \* the group disappears
AfterAdd(P, next, pos, n) ==
    LET Q == [P EXCEPT ![pos].n = @ + n] IN
    IF AddFlag(P, pos) THEN Append(Q, Fresh(next, 0)) ELSE Q
AfterRem(P, pos, n) ==
    LET Q == [P EXCEPT ![pos].n = @ - n] IN
    IF RemFlag(P, pos, n) THEN PackedRemove(Q, pos) ELSE Q
NextAfterAdd(P, next, pos) == IF AddFlag(P, pos) THEN next + 1 ELSE next

---------------------------------------------------------------------------
(* Pitman-Yor: alpha = al > 0, 0 <= d < 1.                                 *)
(* c: size of the group, k: nonempty groups, n: sample size, e: number of  *)
(* empty groups sharing the probability of a new group                     *)
PYSeat(al, d, c, k, n, e) ==
    IF c = 0 THEN RDiv(RAdd(al, RMul(d, RInt(k))), RMul(RAdd(al, RInt(n)), RInt(e)))
    ELSE RDiv(RSub(RInt(c), d), RAdd(al, RInt(n)))
PYAdd(al, d, c, k, n, e) == RLn(PYSeat(al, d, c, k, n, e))
\* the score of removing from a group of size c is that of undoing the addition
PYRem(al, d, c, k, n, e) == RNeg(PYAdd(al, d, c - 1, IF c = 1 THEN k - 1 ELSE k, n - 1, e))
\* ln of the probability of a partition with the given block sizes
NonZero(cs) == SelectSeq(cs, LAMBDA c : c > 0)
PYCounts(al, d, cs) ==
    LET b == NonZero(cs)
        n == SumSeq(b)
        one == RSub("1", d)
        blk(i) == RAdd(RLn(RAdd(al, RMul(d, RInt(i - 1)))),
                       IF b[i] = 1 THEN "0" ELSE RSub(RLnGamma(RAdd(one, RInt(b[i] - 1))), RLnGamma(one)))
    IN  IF n = 0 THEN "0"
        ELSE RSub(RSum([i \in 1..Len(b) |-> blk(i)]), RSub(RLnGamma(RAdd(al, RInt(n))), RLnGamma(al)))

---------------------------------------------------------------------------
(* Low entropy over a data set of size N: P(partition of all N) is         *)
(* proportional to the product of c^c over its blocks.                     *)
LEPostpred(N, s) ==          \* documented ad hoc factor for partial samples, 0 < s < N
    LET ex == RSub("0.45", RAdd(RDiv("0.1", RInt(s)), RDiv("0.1", RInt(N))))
    IN  RMul(ex, RLn(RDiv(RInt(N), RInt(s))))
LEPostpred1(N, s) == IF s < N THEN LEPostpred(N, s) ELSE "0"
CanLEAdd(N, n, e) == n < N /\ e > 0
LEAdd(N, c, k, n, e) ==
    IF c = 0 THEN RAdd(RNeg(RLn(RInt(e))), LEPostpred1(N, n + 1))
    ELSE IF c > 10000 THEN RAdd("1", RLn(RInt(c + 1)))
    ELSE RAdd(RMul(RInt(c), RLn(RDiv(RInt(c + 1), RInt(c)))), RLn(RInt(c + 1)))
LERem(N, c, k, n, e) == RNeg(LEAdd(N, c - 1, IF c = 1 THEN k - 1 ELSE k, n - 1, e))
LELnZApprox(n) ==
    LET z == RMul(RInt(n), RLn(RInt(n)))
    IN  RMul(z, RAdd("1", RMul("0.28269584", RExp(RMul("-0.75", RLn(RInt(n)))))))
\* Z(n) = sum over partitions of n of the product of c^c
RECURSIVE RPow(_, _)
RPow(x, i) == IF i = 0 THEN "1" ELSE RMul(x, RPow(x, i - 1))
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN "1" ELSE RDiv(RMul(Binom(n, k - 1), RInt(n - k + 1)), RInt(k))
RECURSIVE LEZFrom(_, _)
LEZFrom(n, zs) ==            \* zs = <<Z(0), ..., Z(Len-1)>>
    IF Len(zs) > n THEN zs
    ELSE LET s == Len(zs)
             t(k) == RMul(RMul(Binom(s - 1, k - 1), RPow(RInt(k), k)), zs[s - k + 1])
         IN  LEZFrom(n, Append(zs, RSum([k \in 1..s |-> t(k)])))
LEZTable == LEZFrom(47, <<"1">>)
LELnZ(n) == IF n < 48 THEN RLn(LEZTable[n + 1]) ELSE LELnZApprox(n)
LEEnt(b) == LET t(c) == IF c = 1 THEN "0" ELSE RMul(RInt(c), RLn(RInt(c)))
            IN  RSum([i \in 1..Len(b) |-> t(b[i])])
LEDataprob(N, n) ==
    LET a == RLn(RInt(n))  b == RLn(RInt(N))  s == RAdd(a, b) IN
    IF REq(s, "0") THEN "0"
    ELSE RMul(RMul("0.061", RMul(a, RSub(a, b))), RExp(RMul("0.75", RLn(s))))
LECounts(N, cs) ==
    LET b == NonZero(cs)
        n == SumSeq(b)
        part == IF n = 0 \/ n = N THEN "0"
                ELSE RAdd(RMul(LEPostpred(N, n), RInt(Len(b) - 1)), LEDataprob(N, n))
    IN  RSub(RAdd(LEEnt(b), part), LELnZ(n))

---------------------------------------------------------------------------
(* partitions too large to list, as runs <<size, number of groups>> in the *)
(* order of the positions                                                   *)
RECURSIVE Squeeze(_)
Squeeze(R) == IF R = <<>> THEN <<>>
              ELSE IF R[1][2] = 0 THEN Squeeze(Tail(R))
              ELSE LET S == Squeeze(Tail(R)) IN
                   IF S # <<>> /\ S[1][1] = R[1][1] THEN <<<<R[1][1], R[1][2] + S[1][2]>>>> \o Tail(S)
                   ELSE <<R[1]>> \o S
RunGroups(R) == SumSeq([i \in 1..Len(R) |-> R[i][2]])
RunEmpty(R) == SumSeq([i \in 1..Len(R) |-> IF R[i][1] = 0 THEN R[i][2] ELSE 0])
RunSize(R) == SumSeq([i \in 1..Len(R) |-> R[i][1] * R[i][2]])
\* the run that holds position g, and the runs with that position set to size c
RECURSIVE RunAt(_, _)
RunAt(R, g) == IF g < R[1][2] THEN R[1][1] ELSE RunAt(Tail(R), g - R[1][2])
RECURSIVE RunSet(_, _, _)
RunSet(R, g, c) == IF g >= R[1][2] THEN <<R[1]>> \o RunSet(Tail(R), g - R[1][2], c)
                   ELSE <<<<R[1][1], g>>, <<c, 1>>, <<R[1][1], R[1][2] - g - 1>>>> \o Tail(R)
RunPop(R) == LET S == Squeeze(R) IN [S EXCEPT ![Len(S)] = <<@[1], @[2] - 1>>]
RunAdd(R, g, n) == LET c == RunAt(R, g) IN
                   Squeeze(RunSet(R, g, c + n) \o (IF c = 0 THEN <<<<0, 1>>>> ELSE <<>>))
RunRem(R, g, n) == LET c == RunAt(R, g) - n IN
                   IF c > 0 THEN Squeeze(RunSet(R, g, c))
                   ELSE IF g = RunGroups(R) - 1 THEN Squeeze(RunPop(R))
                   ELSE Squeeze(RunPop(RunSet(R, g, RunAt(R, RunGroups(R) - 1))))
RunFlag(R, op, g, n) == IF op = "add" THEN RunAt(R, g) = 0 ELSE RunAt(R, g) = n
\* ln of the product of (al + d i) for i from k to k + m - 1
RisingLn(al, d, k, m) ==
    IF REq(d, "0") THEN RMul(RInt(m), RLn(al))
    ELSE LET s == RAdd(RDiv(al, d), RInt(k)) IN
         RAdd(RMul(RInt(m), RLn(d)), RSub(RLnGamma(RAdd(s, RInt(m))), RLnGamma(s)))
PYRuns(al, d, R) ==
    LET B == SelectSeq(R, LAMBDA x : x[1] > 0)
        n == RunSize(B)
        one == RSub("1", d)
        blk(c) == IF c = 1 THEN "0" ELSE RSub(RLnGamma(RAdd(one, RInt(c - 1))), RLnGamma(one))
    IN  IF n = 0 THEN "0"
        ELSE RSub(RAdd(RisingLn(al, d, 0, RunGroups(B)), RSum([i \in 1..Len(B) |-> RMul(RInt(B[i][2]), blk(B[i][1]))])),
                  RSub(RLnGamma(RAdd(al, RInt(n))), RLnGamma(al)))
LERuns(N, R) ==
    LET B == SelectSeq(R, LAMBDA x : x[1] > 0)
        n == RunSize(B)
        ent == RSum([i \in 1..Len(B) |-> RMul(RInt(B[i][2]), LEEnt(<<B[i][1]>>))])
        part == IF n = 0 \/ n = N THEN "0"
                ELSE RAdd(RMul(LEPostpred(N, n), RInt(RunGroups(B) - 1)), LEDataprob(N, n))
    IN  RSub(RAdd(ent, part), LELnZ(n))
\* on small partitions these are the laws above
Sizes2(s, g, n) == LET t == [s EXCEPT ![g + 1] = @ + n] IN IF s[g + 1] = 0 THEN Append(t, 0) ELSE t
Drop2(s, g) == LET t == [s EXCEPT ![g + 1] = s[Len(s)]] IN SubSeq(t, 1, Len(s) - 1)
Unrun(R) == IF R = <<>> THEN <<>> ELSE LET f[i \in 0..Len(R)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o [k \in 1..R[i][2] |-> R[i][1]] IN f[Len(R)]
ASSUME \A R \in {<<>>, <<<<1, 3>>>>, <<<<2, 2>>, <<1, 1>>, <<5, 1>>>>, <<<<4, 1>>, <<0, 2>>, <<3, 2>>>>} :
          /\ RClose(PYRuns("0.7", "0.25", R), PYCounts("0.7", "0.25", Unrun(R)), "1e-12", "1e-12")
          /\ RClose(PYRuns("3", "0", R), PYCounts("3", "0", Unrun(R)), "1e-12", "1e-12")
          /\ RClose(LERuns(30, R), LECounts(30, Unrun(R)), "1e-12", "1e-12")
          /\ \A g \in 0..(RunGroups(R) - 1) :
               /\ Unrun(RunAdd(R, g, 2)) = Sizes2(Unrun(R), g, 2)
               /\ RunAt(R, g) > 0 => Unrun(RunRem(R, g, RunAt(R, g))) = Drop2(Unrun(R), g)

---------------------------------------------------------------------------
(* sequential seating: the law a sampled assignment vector follows.        *)
(* sz: sizes of the groups so far; weights of joining each and of a new one*)
PYWeights(al, d, sz) ==
    [i \in 1..(Len(sz) + 1) |->
        IF i <= Len(sz) THEN RSub(RInt(sz[i]), d)
        ELSE RAdd(al, RMul(d, RInt(Len(sz))))]
LEWeights(N, sz) ==
    [i \in 1..(Len(sz) + 1) |->
        IF i <= Len(sz) THEN RExp(LEAdd(N, sz[i], 0, SumSeq(sz), 1))
        ELSE RExp(LEAdd(N, 0, 0, SumSeq(sz), 1))]
=============================================================================
