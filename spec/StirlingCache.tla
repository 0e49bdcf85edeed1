----------------------------- MODULE StirlingCache ---------------------------
(***************************************************************************)
(* The shared table of exact rows: it grows on demand, one row after       *)
(* another, each made from the one before; growing may move the rows.      *)
(* Policy "locked" is the library's; with "none" nobody locks, with        *)
(* "check" the size is looked at before locking.  The invariants must fail *)
(* for the latter two.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Policy, Queries, Emit      \* Queries[t]: the rows thread t asks for, one after another
VARIABLES pc, at, held, table, moving, got, hist
vars == <<pc, at, held, table, moving, got, hist>>
T == DOMAIN Queries
\* a row is the number it stands for once it is complete, 0 while it is being made
Q(t) == Queries[t][at[t]]
Init == /\ pc = [t \in T |-> "idle"] /\ at = [t \in T |-> 1] /\ held = 0 /\ table = <<>> /\ moving = {}
        /\ got = [t \in T |-> <<>>] /\ hist = <<>>
Go(t, to) == pc' = [pc EXCEPT ![t] = to]
Log(t) == hist' = Append(hist, t)
Rest == UNCHANGED <<at, got>>
Ask(t) == /\ pc[t] = "idle" /\ at[t] <= Len(Queries[t]) /\ Log(t) /\ UNCHANGED <<held, table, moving>> /\ Rest
          /\ Go(t, CASE Policy = "locked" -> "wait" [] Policy = "none" -> "look"
                     [] OTHER -> IF Q(t) < Len(table) THEN "copy" ELSE "wait")
Enter(t) == /\ pc[t] = "wait" /\ held = 0 /\ held' = t /\ Go(t, "look") /\ UNCHANGED <<table, moving, hist>> /\ Rest
Look(t) == /\ pc[t] = "look" /\ UNCHANGED <<held, table, moving, hist>> /\ Rest
           /\ Go(t, IF Q(t) < Len(table) THEN "copy" ELSE "move")
\* the vector may have to move: until it has, what others look at is gone
Move(t) == /\ pc[t] = "move" /\ moving' = moving \cup {t} /\ Go(t, "push") /\ UNCHANGED <<held, table, hist>> /\ Rest
Push(t) == /\ pc[t] = "push" /\ moving' = moving \ {t} /\ table' = Append(table, 0) /\ Go(t, "fill") /\ UNCHANGED <<held, hist>> /\ Rest
Fill(t) == /\ pc[t] = "fill" /\ UNCHANGED <<held, moving, hist>> /\ Rest /\ Go(t, "look")
           /\ LET k == Len(table) IN
              table' = [table EXCEPT ![k] = IF k = 1 \/ table[k - 1] = k - 1 THEN k ELSE -1]
Copy(t) == /\ pc[t] = "copy" /\ UNCHANGED <<at, table, moving, held, hist>>
           /\ got' = [got EXCEPT ![t] = Append(@, IF moving # {} THEN -2 ELSE table[Q(t) + 1])]
           /\ Go(t, IF held = t THEN "leave" ELSE "next")
Leave(t) == /\ pc[t] = "leave" /\ held' = 0 /\ Log(t) /\ Go(t, "next") /\ UNCHANGED <<at, table, moving, got>>
Over(t) == /\ pc[t] = "next" /\ at' = [at EXCEPT ![t] = @ + 1] /\ Go(t, "idle") /\ UNCHANGED <<held, table, moving, got, hist>>
Next == \E t \in T : Ask(t) \/ Enter(t) \/ Look(t) \/ Move(t) \/ Push(t) \/ Fill(t) \/ Copy(t) \/ Leave(t) \/ Over(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RightRows == \A t \in T : \A i \in 1..Len(got[t]) : got[t][i] = Queries[t][i] + 1
OneInside == Policy = "locked" => Cardinality({t \in T : pc[t] \in {"look", "move", "push", "fill", "copy", "leave"}}) <= 1
WholeRows == held = 0 /\ Policy = "locked" => \A k \in 1..Len(table) : table[k] = k
Finished == \A t \in T : pc[t] = "idle" /\ at[t] > Len(Queries[t])
Progress == <>Finished
OnlyGrows == [][Len(table') >= Len(table)]_vars
Show == (Emit /\ Finished) => PrintT("HIST " \o ToJson([q |-> Queries, h |-> hist]))

Two == <<<<2, 0>>, <<1, 3>>>>
Three == <<<<1>>, <<2>>, <<0>>>>
ThreeLong == <<<<1, 3>>, <<2, 0>>, <<3>>>>
=============================================================================
