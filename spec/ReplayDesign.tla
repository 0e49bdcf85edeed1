----------------------------- MODULE ReplayDesign ----------------------------
(***************************************************************************)
(* Programs that draw random numbers and score, each with its own source;  *)
(* what they compute is modelled by which random numbers it depends on.    *)
(* Every interleaving of the runs is explored.  With Hidden, samplers keep *)
(* a spare number in a place that all of them share (a static object, as   *)
(* std::normal_distribution would): the invariants must then fail.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Hidden, Emit
VARIABLES pos, used, spare, out, hist
vars == <<pos, used, spare, out, hist>>

\* runs 1 and 2 execute the same program from the same seed, 3 is another one;
\* run 2 scores in between, which must not matter
Runs == 1..3
Seed(r) == IF r = 3 THEN 7 ELSE 1
Program(r) == CASE r = 1 -> <<"one", "pair", "one">>
                [] r = 2 -> <<"one", "score", "pair", "score", "one">>
                [] r = 3 -> <<"one", "one", "pair">>
Init == /\ pos = [r \in Runs |-> 0] /\ used = [r \in Runs |-> 0] /\ spare = <<>>
        /\ out = [r \in Runs |-> <<>>] /\ hist = <<>>
Number(r, k) == <<Seed(r), k>>
\* "one" makes two numbers and uses the first, as a normal sampler does
One(r) == IF Hidden /\ spare # <<>>
          THEN /\ out' = [out EXCEPT ![r] = Append(@, spare[1])] /\ spare' = <<>> /\ UNCHANGED used
          ELSE /\ out' = [out EXCEPT ![r] = Append(@, Number(r, used[r] + 1))]
               /\ used' = [used EXCEPT ![r] = @ + 2]
               /\ spare' = (IF Hidden THEN <<Number(r, used[r] + 2)>> ELSE spare)
Pair(r) == /\ out' = [out EXCEPT ![r] = @ \o <<Number(r, used[r] + 1), Number(r, used[r] + 2)>>]
           /\ used' = [used EXCEPT ![r] = @ + 2] /\ UNCHANGED spare
Step(r) == /\ pos[r] < Len(Program(r))
           /\ pos' = [pos EXCEPT ![r] = @ + 1] /\ hist' = Append(hist, r)
           /\ LET c == Program(r)[pos[r] + 1] IN
              CASE c = "one" -> One(r) [] c = "pair" -> Pair(r) [] c = "score" -> UNCHANGED <<used, spare, out>>
Next == \E r \in Runs : Step(r)
Spec == Init /\ [][Next]_vars

Common(s, t) == \A i \in 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)) : s[i] = t[i]
SameSeedSameOutput == Common(out[1], out[2])
SameSeedSameSource == Len(out[1]) = Len(out[2]) => used[1] = used[2]
OwnNumbersOnly == \A r \in Runs : \A i \in 1..Len(out[r]) : out[r][i][1] = Seed(r)
Done == \A r \in Runs : pos[r] = Len(Program(r))
Show == (Emit /\ Done) => PrintT("HIST " \o ToJson(hist))
=============================================================================
