---------------------------- MODULE MixtureDesign ----------------------------
(***************************************************************************)
(* The algorithms of include/distributions/mixture.hpp, step by step on    *)
(* their own data structures (counts array, empty-id set, packed component *)
(* vector, id maps), refining the abstract packed partition of             *)
(* Clustering.tla.  TLC explores every history up to MaxLen operations     *)
(* from every initial count vector in scope and checks, after each step,   *)
(* that the data structures represent the abstract state.  With Emit set,  *)
(* every maximal history is printed; the checks replay all of them in the  *)
(* real code (specification -> implementation).                            *)
(***************************************************************************)
EXTENDS Clustering, TLC, Json

CONSTANTS MaxLen, MaxGroups, MaxCount, Batches, Emit

VARIABLES counts, empties, size, comp, p2g, g2p, gsize,    \* implementation
          P, next,                                         \* abstract
          hist
impl == <<counts, empties, size, comp, p2g, g2p, gsize>>
vars == <<impl, P, next, hist>>

Inits == UNION {[1..k -> 0..MaxCount] : k \in 1..MaxGroups}

Init == \E cs \in {c \in Inits : CanInit(c)} :
        /\ counts = cs /\ size = SumSeq(cs)
        /\ empties = {i \in 1..Len(cs) : cs[i] = 0}
        /\ comp = cs
        /\ p2g = [i \in 1..Len(cs) |-> i - 1]
        /\ g2p = [g \in 0..(Len(cs) - 1) |-> g + 1]
        /\ gsize = Len(cs)
        /\ P = InitPacked(cs) /\ next = Len(cs)
        /\ hist = <<<<"init", cs>>>>

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

AddValue(pos, n) ==
    /\ pos \in 1..Len(counts)
    /\ LET addg == counts[pos] = 0
           c1 == [counts EXCEPT ![pos] = @ + n]
       IN  /\ size' = size + n
           /\ comp' = LET q == [comp EXCEPT ![pos] = @ + n] IN IF addg THEN Append(q, 0) ELSE q
           /\ IF addg
              THEN /\ empties' = (empties \ {pos}) \cup {Len(c1) + 1}
                   /\ counts' = Append(c1, 0)
                   /\ p2g' = Append(p2g, gsize)
                   /\ g2p' = [g \in DOMAIN g2p \cup {gsize} |-> IF g = gsize THEN Len(p2g) + 1 ELSE g2p[g]]
                   /\ gsize' = gsize + 1
              ELSE /\ counts' = c1 /\ UNCHANGED <<empties, p2g, g2p, gsize>>
    /\ P' = AfterAdd(P, next, pos, n) /\ next' = NextAfterAdd(P, next, pos)
    /\ hist' = Append(hist, <<"add", pos - 1, n, IF AddFlag(P, pos) THEN 1 ELSE 0>>)

RemoveValue(pos, n) ==
    /\ pos \in 1..Len(counts) /\ n <= counts[pos]
    /\ LET c1 == [counts EXCEPT ![pos] = @ - n]
           remg == c1[pos] = 0
           last == Len(c1)
       IN  /\ size' = size - n
           /\ comp' = LET q == [comp EXCEPT ![pos] = @ - n] IN IF remg THEN PackedRemove(q, pos) ELSE q
           /\ IF remg
              THEN /\ counts' = SubSeq(IF pos # last THEN [c1 EXCEPT ![pos] = c1[last]] ELSE c1, 1, last - 1)
                   /\ empties' = IF pos # last /\ c1[last] = 0 THEN (empties \ {last}) \cup {pos} ELSE empties
                   /\ LET g == p2g[pos]
                          q == PackedRemove(p2g, pos)
                          m == Drop(g2p, g)
                      IN  /\ p2g' = q
                          /\ g2p' = IF pos <= Len(q) THEN [m EXCEPT ![q[pos]] = pos] ELSE m
                   /\ UNCHANGED gsize
              ELSE /\ counts' = c1 /\ UNCHANGED <<empties, p2g, g2p, gsize>>
    /\ P' = AfterRem(P, pos, n) /\ next' = next
    /\ hist' = Append(hist, <<"rem", pos - 1, n, IF RemFlag(P, pos, n) THEN 1 ELSE 0>>)

Next == /\ Len(hist) <= MaxLen
        /\ \E pos \in 1..Len(counts), n \in Batches :
             \/ counts[pos] + n <= MaxCount + 2 /\ AddValue(pos, n)
             \/ n <= counts[pos] /\ RemoveValue(pos, n)
Spec == Init /\ [][Next]_vars

Represents ==
    /\ counts = Sizes(P) /\ comp = Sizes(P)
    /\ empties = EmptyPos(P)
    /\ size = SampleSize(P)
    /\ p2g = Gids(P) /\ gsize = next
    /\ DOMAIN g2p = {P[i].gid : i \in 1..Len(P)}
    /\ \A i \in 1..Len(P) : g2p[P[i].gid] = i
IdsUnique == \A i, j \in 1..Len(P) : i # j => P[i].gid # P[j].gid
EmptiesConstant == Cardinality(EmptyPos(P)) = Cardinality({i \in 1..Len(hist[1][2]) : hist[1][2][i] = 0})
Fresh2 == \A i \in 1..Len(P) : P[i].gid < next
\* a group keeps its id: ids of the survivors are unchanged, none is reused
Stable == [][ \A i \in 1..Len(P) : \A j \in 1..Len(P') :
                P'[j].gid = P[i].gid => (P'[j].n = P[i].n \/ \E n \in Batches : P'[j].n \in {P[i].n + n, P[i].n - n}) ]_vars
Show == (Emit /\ Len(hist) = MaxLen + 1) => PrintT("HIST " \o ToJson(hist))
=============================================================================
