----------------------------- MODULE StickDesign -----------------------------
(***************************************************************************)
(* The Dirichlet-process stick of models/dpd on its own data: weights of    *)
(* the known values in units of 1/Unit, the remainder, and the number of    *)
(* references to each value.  Add breaks a piece off the remainder for a    *)
(* new value, Remove returns the piece with the last reference, Realize     *)
(* shares out what is left over fresh values.  Every history of MaxLen      *)
(* calls is explored with every piece the grid allows; with Emit set the    *)
(* calls of each maximal history are printed, for replay in the real code.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Values, Unit, MaxLen, Emit
VARIABLES beta, cnt, rest, hist, born
vars == <<beta, cnt, rest, hist, born>>

Empty == [v \in {} |-> 0]
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
Drop(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumF(f, S \ {k})
Top(f) == IF DOMAIN f = {} THEN -1 ELSE CHOOSE k \in DOMAIN f : \A j \in DOMAIN f : j <= k

Init == beta = Empty /\ cnt = Empty /\ rest = Unit /\ hist = <<>> /\ born = Empty
Do(op) == hist' = Append(hist, op)

Add(v) ==
    IF v \in DOMAIN beta
    THEN /\ cnt' = Put(cnt, v, cnt[v] + 1) /\ Do(<<"sadd", v>>) /\ UNCHANGED <<beta, rest, born>>
    ELSE IF rest = 0 THEN Do(<<"srefused sadd", v>>) /\ UNCHANGED <<beta, cnt, rest, born>>
    ELSE \E p \in 1..(rest - 1) :          \* something always remains
         /\ beta' = Put(beta, v, p) /\ cnt' = Put(cnt, v, 1) /\ rest' = rest - p
         /\ born' = Put(born, v, p) /\ Do(<<"sadd", v>>)
Remove(v) ==
    /\ v \in DOMAIN beta /\ Do(<<"srem", v>>)
    /\ IF cnt[v] > 1 THEN cnt' = Put(cnt, v, cnt[v] - 1) /\ UNCHANGED <<beta, rest, born>>
       ELSE /\ cnt' = Drop(cnt, v) /\ beta' = Drop(beta, v) /\ rest' = rest + beta[v] /\ born' = Drop(born, v)
\* pieces of one unit until one is left, which goes to the last value
Realize ==
    /\ Do(<<"srealize", 0>>)
    /\ LET t == Top(beta)
           new == [k \in (t + 1)..(t + rest) |-> 1] IN
       /\ beta' = [k \in DOMAIN beta \cup DOMAIN new |-> IF k \in DOMAIN beta THEN beta[k] ELSE 1]
       /\ cnt' = [k \in DOMAIN cnt \cup DOMAIN new |-> IF k \in DOMAIN cnt THEN cnt[k] ELSE 1]
       /\ born' = [k \in DOMAIN born \cup DOMAIN new |-> IF k \in DOMAIN born THEN born[k] ELSE 1]
       /\ rest' = 0
Next == /\ Len(hist) < MaxLen
        /\ Realize \/ \E v \in Values : Add(v) \/ Remove(v)
Spec == Init /\ [][Next]_vars

SumsToOne == rest + SumF(beta, DOMAIN beta) = Unit
KnownIsReferenced == DOMAIN beta = DOMAIN cnt /\ \A v \in DOMAIN cnt : cnt[v] > 0
Probabilities == rest \in 0..Unit /\ \A v \in DOMAIN beta : beta[v] \in 1..Unit
KeepsItsWeight == beta = born
Show == (Emit /\ Len(hist) = MaxLen) => PrintT("HIST " \o ToJson(hist))
=============================================================================
