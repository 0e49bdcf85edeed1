----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* What the small containers stand for: a finite map, an integer-valued    *)
(* multiset (a total function to Int with finite support) and a sequence.  *)
(* Keys are numerals, counts are TLC integers.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty == [k \in {} |-> 0]
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* multisets: only nonzero counts are in the domain *)
At(f, k) == IF Has(f, k) THEN f[k] ELSE 0
Bump(f, k, n) == LET c == At(f, k) + n IN IF c = 0 THEN Drop(f, k) ELSE Put(f, k, c)
RECURSIVE FoldBump(_, _, _)
FoldBump(f, g, S) == IF S = {} THEN f
                     ELSE LET k == CHOOSE k \in S : TRUE IN FoldBump(Bump(f, k, g[k]), g, S \ {k})
MergeInto(f, g) == FoldBump(f, g, DOMAIN g)
RECURSIVE TotalOver(_, _)
TotalOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + TotalOver(f, S \ {k})
Total(f) == TotalOver(f, DOMAIN f)
CanRename(f, a, b) == Has(f, a) => (a = b \/ ~Has(f, b))
Rename(f, a, b) == IF Has(f, a) THEN Put(Drop(f, a), b, f[a]) ELSE f
CanInitCount(f, k, v) == v = 0 \/ ~Has(f, k)

(* sequences *)
PackedRemove(s, i) == [k \in 1..(Len(s) - 1) |-> IF k = i THEN s[Len(s)] ELSE s[k]]
=============================================================================
