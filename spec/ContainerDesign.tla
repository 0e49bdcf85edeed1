--------------------------- MODULE ContainerDesign ---------------------------
(***************************************************************************)
(* The algorithms of include/distributions/sparse.hpp on their own data    *)
(* structures (a table of nonzero entries and a running total per counter),*)
(* refining the multisets of Containers.tla, over every history of MaxLen  *)
(* operations on two counters.  With Emit set every maximal history is     *)
(* printed for replay in the real code.                                    *)
(***************************************************************************)
EXTENDS Containers, TLC, Json

CONSTANTS Keys, Values, MaxLen, Emit
V3 == {-1, 0, 1}
V2 == {-1, 1}
Ids == {0, 1}
VARIABLES map, total, B, hist
vars == <<map, total, B, hist>>

Init == map = [i \in Ids |-> Empty] /\ total = [i \in Ids |-> 0] /\ B = [i \in Ids |-> Empty] /\ hist = <<>>

\* SparseCounter::add on a table and a total
ImplAdd(st, k, v) ==
    IF v = 0 THEN st
    ELSE LET t == st.total + v IN
         IF ~Has(st.map, k) THEN [map |-> Put(st.map, k, v), total |-> t]
         ELSE LET c == st.map[k] + v IN
              [map |-> IF c = 0 THEN Drop(st.map, k) ELSE Put(st.map, k, c), total |-> t]
RECURSIVE ImplMerge(_, _, _)
ImplMerge(st, other, S) == IF S = {} THEN st
                           ELSE LET k == CHOOSE k \in S : TRUE IN ImplMerge(ImplAdd(st, k, other[k]), other, S \ {k})
St(i) == [map |-> map[i], total |-> total[i]]
Become(i, st, b, op) == /\ map' = [map EXCEPT ![i] = st.map] /\ total' = [total EXCEPT ![i] = st.total]
                        /\ B' = [B EXCEPT ![i] = b] /\ hist' = Append(hist, op)
Refuse(op) == hist' = Append(hist, op) /\ UNCHANGED <<map, total, B>>

Add(i, k, v) == Become(i, ImplAdd(St(i), k, v), Bump(B[i], k, v), <<"cadd", i, k, v>>)
InitCount(i, k, v) ==
    IF v # 0 /\ Has(map[i], k) THEN Refuse(<<"cinit", i, k, v>>)
    ELSE Become(i, IF v = 0 THEN St(i) ELSE [map |-> Put(map[i], k, v), total |-> total[i] + v],
                Bump(B[i], k, v), <<"cinit", i, k, v>>)
Merge(i, j) == /\ i # j      \* merging a counter into itself doubles it; checked by the random histories
               /\ Become(i, ImplMerge(St(i), map[j], DOMAIN map[j]), MergeInto(B[i], B[j]), <<"cmerge", i, j>>)
DoRename(i, a, b) ==
    IF Has(map[i], a) /\ a # b /\ Has(map[i], b) THEN Refuse(<<"cren", i, a, b>>)
    ELSE Become(i, [map |-> IF Has(map[i], a) THEN Put(Drop(map[i], a), b, map[i][a]) ELSE map[i], total |-> total[i]],
                Rename(B[i], a, b), <<"cren", i, a, b>>)
Clear(i) == Become(i, [map |-> Empty, total |-> 0], Empty, <<"cclear", i>>)

Next == /\ Len(hist) < MaxLen
        /\ \E i \in Ids :
             \/ \E k \in Keys, v \in Values : Add(i, k, v) \/ InitCount(i, k, v)
             \/ \E j \in Ids : Merge(i, j)
             \/ \E a, b \in Keys : DoRename(i, a, b)
             \/ Clear(i)
Spec == Init /\ [][Next]_vars

Represents == \A i \in Ids : map[i] = B[i] /\ total[i] = Total(B[i])
NoZeros == \A i \in Ids : \A k \in DOMAIN map[i] : map[i][k] # 0
Show == (Emit /\ Len(hist) = MaxLen) => PrintT("HIST " \o ToJson(hist))
=============================================================================
