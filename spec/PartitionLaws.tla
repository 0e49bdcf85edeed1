---------------------------- MODULE PartitionLaws ----------------------------
(***************************************************************************)
(* Design-level model checking of the laws in Clustering.tla over every    *)
(* seating history of up to MaxN items: the Pitman-Yor seating             *)
(* probabilities sum to one, their product does not depend on the order in *)
(* which items are seated (so score_counts may be computed in any order),  *)
(* and the low-entropy prior on complete data sets is normalised.          *)
(***************************************************************************)
EXTENDS Clustering, TLC

CONSTANTS Kind, MaxN

VARIABLES par,    \* the model parameters
          sz,     \* block sizes in order of appearance
          lp,     \* ln of the product of seating probabilities so far
          v       \* the assignment vector
vars == <<par, sz, lp, v>>

Params == IF Kind = "py"
          THEN {<<"1", "0">>, <<"0.001", "0.5">>, <<"7.5", "0.95">>, <<"0.3", "0.25">>, <<"1000", "0">>}
          ELSE {<<n>> : n \in 1..MaxN}
N == par[1]
Init == par \in Params /\ sz = <<>> /\ lp = "0" /\ v = <<>>
MaxItems == IF Kind = "py" THEN MaxN ELSE N
Seat(a) ==
    /\ Len(v) < MaxItems
    /\ a \in 1..(Len(sz) + 1)
    /\ sz' = IF a <= Len(sz) THEN [sz EXCEPT ![a] = @ + 1] ELSE Append(sz, 1)
    /\ v' = Append(v, a)
    /\ lp' = IF Kind = "py"
             THEN RAdd(lp, PYAdd(par[1], par[2], IF a <= Len(sz) THEN sz[a] ELSE 0, Len(sz), Len(v), 1))
             ELSE "0"
    /\ UNCHANGED par
Next == \E a \in 1..(Len(sz) + 1) : Seat(a)
Spec == Init /\ [][Next]_vars

\* all groups, with any number of empty ones, share out probability one
AddsSumToOne ==
    \A e \in 1..3 :
      RClose(RSum([i \in 1..(Len(sz) + e) |->
                 PYSeat(par[1], par[2], IF i <= Len(sz) THEN sz[i] ELSE 0, Len(sz), Len(v), e)]), "1", "1e-25", "0")
Perms == LET S == 1..Len(sz) IN {p \in [S -> S] : \A i, j \in S : i # j => p[i] # p[j]}
Exchangeable ==
    /\ RClose(lp, PYCounts(par[1], par[2], sz), "1e-10", "1e-12")
    /\ Len(sz) <= 4 => \A p \in Perms : RClose(PYCounts(par[1], par[2], [i \in 1..Len(sz) |-> sz[p[i]]]),
                                               PYCounts(par[1], par[2], sz), "1e-10", "1e-12")
    /\ RClose(PYCounts(par[1], par[2], <<0>> \o sz \o <<0, 0>>), lp, "1e-10", "1e-12")
RemoveUndoes ==
    IF Kind = "py" THEN
      \A c \in {0} \cup {sz[i] : i \in 1..Len(sz)}, e \in 1..2 :
        LET k == Len(sz)  n == Len(v) IN
        REq(RAdd(PYAdd(par[1], par[2], c, k, n, e),
                 PYRem(par[1], par[2], c + 1, IF c = 0 THEN k + 1 ELSE k, n + 1, e)), "0")
    ELSE
      \A c \in {0} \cup {sz[i] : i \in 1..Len(sz)} :
        LET k == Len(sz)  n == Len(v) IN
        n < N => REq(RAdd(LEAdd(N, c, k, n, 1), LERem(N, c + 1, IF c = 0 THEN k + 1 ELSE k, n + 1, 1)), "0")

RECURSIVE Vecs(_)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Vecs(s) == IF s = 0 THEN {<<>>}
           ELSE UNION {{Append(w, a) : a \in 1..(MaxOf({0} \cup {w[i] : i \in 1..Len(w)}) + 1)} : w \in Vecs(s - 1)}
SizesOf(w) == IF w = <<>> THEN <<>>
              ELSE [k \in 1..MaxOf({w[i] : i \in 1..Len(w)}) |-> Cardinality({i \in 1..Len(w) : w[i] = k})]
\* checked once per N, at the root
CompleteNormalised ==
    v = <<>> => RClose(RSum([w \in Vecs(N) |-> RExp(LECounts(N, SizesOf(w)))]), "1", "1e-10", "0")
=============================================================================
