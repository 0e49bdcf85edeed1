---------------------------- MODULE SamplerDesign ----------------------------
(***************************************************************************)
(* The subtract-and-compare loop of sample_discrete and sample_from_       *)
(* likelihoods in whole numbers: weights 0..MaxW on up to MaxN outcomes,   *)
(* and every half-integer point t of [0, total).  It inverts the           *)
(* cumulative distribution exactly, and gives every outcome its weight.    *)
(* With Emit set each case is printed for replay in the real code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxW, Emit
VARIABLES w, k, i, t, res      \* weights, point (2t = 2k + 1), loop index, 2 * remaining, result
vars == <<w, k, i, t, res>>

Sum(s) == LET RECURSIVE S(_)
              S(n) == IF n = 0 THEN 0 ELSE s[n] + S(n - 1) IN S(Len(s))
Weights == UNION {[1..n -> 0..MaxW] : n \in 1..MaxN}
Init == /\ w \in {x \in Weights : Sum(x) > 0}
        /\ k \in 0..(Sum(w) - 1)
        /\ i = 1 /\ t = 2 * k + 1 /\ res = 0
Step == /\ res = 0 /\ i <= Len(w)
        /\ t' = t - 2 * w[i]
        /\ IF t - 2 * w[i] < 0 THEN res' = i /\ i' = i ELSE res' = 0 /\ i' = i + 1
        /\ UNCHANGED <<w, k>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

RECURSIVE Cum(_, _)
Cum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Cum(s, n - 1)
Inverts == res # 0 => /\ w[res] > 0
                      /\ 2 * Cum(w, res - 1) <= 2 * k + 1
                      /\ 2 * k + 1 < 2 * Cum(w, res)
NoFallThrough == i <= Len(w)
Remaining == t = 2 * k + 1 - 2 * Cum(w, IF res = 0 THEN i - 1 ELSE i)
Done == <>(res # 0)
Show == (Emit /\ res # 0) => PrintT("CASE " \o ToJson([w |-> w, k |-> k, r |-> res]))
=============================================================================
