----------------------------- MODULE CacheDesign -----------------------------
(***************************************************************************)
(* A mixture of groups with cached scores, as in models/dd.hpp ("dense": a *)
(* row per value) and models/dpd.hpp ("sparse": a row per value somebody   *)
(* holds, with a count of references; values may appear and disappear      *)
(* while the mixture is in use).  A cached score log(prior + count) is     *)
(* modelled by its count, a shift log(prior total + size) by the size.     *)
(* Whatever the history, the cache must say what the groups hold.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, MaxGroups, MaxLen, Emit
V == {1, 2}          \* 1 is known from the start; 2 is new in the sparse mixture
VARIABLES groups, rows, ref, shift, refs, hist
vars == <<groups, rows, ref, shift, refs, hist>>

None == [v \in V |-> 0]
Bags == {None, [None EXCEPT ![1] = 1], [None EXCEPT ![1] = 2]}
Known == IF Kind = "dense" THEN V ELSE {v \in V : refs[v] > 0}
SumOver(f(_), n) == LET s[i \in 0..n] == IF i = 0 THEN 0 ELSE s[i - 1] + f(i) IN s[n]
Size(b) == b[1] + b[2]
Held(gs, v) == LET c(i) == gs[i][v] IN SumOver(c, Len(gs))
Column(gs, v) == [i \in 1..Len(gs) |-> gs[i][v]]
Sizes(gs) == [i \in 1..Len(gs) |-> Size(gs[i])]
Drop(f, v) == [w \in DOMAIN f \ {v} |-> f[w]]
Put(f, v, x) == [w \in DOMAIN f \cup {v} |-> IF w = v THEN x ELSE f[w]]
Packed(s, i) == [j \in 1..(Len(s) - 1) |-> IF j = i THEN s[Len(s)] ELSE s[j]]

Cached(gs, known) ==       \* init: resize and update_all
    /\ rows' = [v \in known |-> Column(gs, v)]
    /\ ref' = [v \in known |-> Held(gs, v)]
    /\ shift' = Sizes(gs)

Init == \E n \in 0..2 : \E bs \in [1..n -> Bags] :
        /\ groups = bs /\ refs = [None EXCEPT ![1] = 1]
        /\ LET known == IF Kind = "dense" THEN V ELSE {1} IN
           rows = [v \in known |-> Column(bs, v)] /\ ref = [v \in known |-> Held(bs, v)]
        /\ shift = Sizes(bs) /\ hist = << <<"start", [i \in 1..n |-> bs[i][1]], 0>> >>
Do(op) == Len(hist) <= MaxLen /\ hist' = Append(hist, op)
Again == Do(<<"minit", 0, 0>>) /\ Cached(groups, Known) /\ UNCHANGED <<groups, refs>>
AddGroup == /\ Len(groups) < MaxGroups /\ Do(<<"maddg", 0, 0>>)
            /\ groups' = Append(groups, None)
            /\ rows' = [v \in DOMAIN rows |-> Append(rows[v], 0)]
            /\ shift' = Append(shift, 0) /\ UNCHANGED <<ref, refs>>
\* a group that holds a new value is not removed: nobody could take the value back
RemGroup(i) == /\ (Kind = "sparse" => groups[i][2] = 0) /\ Do(<<"mremg", i - 1, 0>>)
               /\ groups' = Packed(groups, i)
               /\ rows' = [v \in DOMAIN rows |-> Packed(rows[v], i)]
               /\ shift' = Packed(shift, i) /\ UNCHANGED <<ref, refs>>
Add(i, v) ==
    /\ Do(<<IF Kind = "sparse" /\ v = 2 THEN "new" ELSE "madd", i - 1, v>>)
    /\ groups' = [groups EXCEPT ![i][v] = @ + 1]
    /\ refs' = IF v = 2 THEN [refs EXCEPT ![2] = @ + 1] ELSE refs
    /\ shift' = [shift EXCEPT ![i] = Size(groups[i]) + 1]
    /\ LET n == (IF v \in DOMAIN ref THEN ref[v] ELSE 0) + 1
           \* a first reference: vector::resize keeps what is there already
           row == IF v \in DOMAIN rows THEN rows[v] ELSE [j \in 1..Len(groups) |-> 0]
       IN  /\ ref' = Put(ref, v, n)
           /\ rows' = Put(rows, v, [row EXCEPT ![i] = groups[i][v] + 1])
Rem(i, v) ==
    /\ groups[i][v] > 0 /\ Do(<<IF Kind = "sparse" /\ v = 2 THEN "old" ELSE "mrem", i - 1, v>>)
    /\ groups' = [groups EXCEPT ![i][v] = @ - 1]
    /\ refs' = IF v = 2 THEN [refs EXCEPT ![2] = @ - 1] ELSE refs
    /\ shift' = [shift EXCEPT ![i] = Size(groups[i]) - 1]
    /\ IF Kind = "sparse" /\ ref[v] = 1 THEN ref' = Drop(ref, v) /\ rows' = Drop(rows, v)
       ELSE ref' = [ref EXCEPT ![v] = @ - 1] /\ rows' = [rows EXCEPT ![v][i] = groups[i][v] - 1]
Next == \/ Again \/ AddGroup
        \/ \E i \in 1..Len(groups) : RemGroup(i) \/ \E v \in V : Add(i, v) \/ Rem(i, v)
Spec == Init /\ [][Next]_vars

\* what a score of v against group i is made from
CacheAgrees == \A v \in Known : IF v \in DOMAIN rows THEN rows[v] = Column(groups, v)
                                ELSE \A i \in 1..Len(groups) : groups[i][v] = 0
ShiftAgrees == shift = Sizes(groups)
OnlyKnown == DOMAIN rows \subseteq Known
Referenced == \A v \in DOMAIN ref : ref[v] >= Held(groups, v)
Show == (Emit /\ Len(hist) = MaxLen + 1) => PrintT("HIST " \o ToJson(hist))
State == <<groups, rows, ref, shift, refs, Len(hist)>>
=============================================================================
