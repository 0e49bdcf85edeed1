----------------------------- MODULE TraceReplay -----------------------------
(***************************************************************************)
(* Runs of objects with random sources of their own must be explainable by *)
(* one deterministic machine: what a call answers, and the state it leaves *)
(* the random source in, is a function of the calls made before it in the  *)
(* same run - not of other runs, of other objects, of what memory held -   *)
(* and a call that only scores or looks is no step of the machine at all.  *)
(* The machine is built while the trace is read: nodes are histories.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, at, memo, rng, kind
vars == <<l, at, memo, rng, kind>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Judge(ok, what, got, want) ==
    IF "C24" \notin Props \/ ok THEN TRUE ELSE PrintT(<<"REJECT", l, {"C24"}, what, got, want>>) /\ FALSE
Empty == [x \in {} |-> 0]
\* calls that do not change what they are made on
PureOf(k) == CASE k = "rng" -> {}
               [] k = "clu" -> {"sa", "sr", "sc", "z", "obs", "sv", "sd", "cnt", "p2g", "g2p"}
               [] k = "num" -> {"fn", "stirling", "scores", "vec"}
               [] k = "samp" -> {}
               [] OTHER -> {"sd", "sv", "svs", "stats", "post", "val", "sdump", "msvg", "msv", "msd", "mgrid", "mlen", "mstats", "mval"}
Init == l = 1 /\ at = Empty /\ memo = <<Empty>> /\ rng = <<"">> /\ kind = Empty
Session == IsEvent("session") /\ at' = Empty /\ memo' = <<Empty>> /\ rng' = <<"">> /\ kind' = Empty
Dirty == IsEvent("dirty") /\ UNCHANGED <<at, memo, rng, kind>>
Close == IsEvent("close") /\ at' = [r \in DOMAIN at \ {E.run} |-> at[r]] /\ UNCHANGED <<memo, rng, kind>>

\* from node n, call c answered out and left the source in state s; pure: no step
Answer(n, c, out, s, pure) ==
    /\ pure => Judge(s = rng[n], <<E.run, "the random source moved">>, s, rng[n])
    /\ IF c \in DOMAIN memo[n]
       THEN LET m == memo[n][c] IN
            /\ Judge(out = m.out, <<E.run, "answer">>, out, m.out)
            /\ Judge(s = rng[m.to], <<E.run, "random source">>, s, rng[m.to])
            /\ at' = (E.run :> m.to) @@ at /\ UNCHANGED <<memo, rng>>
       ELSE IF pure
       THEN /\ memo' = [memo EXCEPT ![n] = (c :> [out |-> out, to |-> n]) @@ @]
            /\ UNCHANGED rng /\ at' = (E.run :> n) @@ at
       ELSE LET new == Len(memo) + 1 IN
            /\ memo' = Append([memo EXCEPT ![n] = (c :> [out |-> out, to |-> new]) @@ @], Empty)
            /\ rng' = Append(rng, s) /\ at' = (E.run :> new) @@ at
Open == IsEvent("open") /\ kind' = (E.run :> E.kind) @@ kind /\ Answer(1, "open " \o E.cmd, "", E.rng, FALSE)
\* a copied source is where the one it was copied from is; from then on each goes its own way
Copy == IsEvent("copy") /\ at' = (E.run :> at[E.from]) @@ at /\ kind' = (E.run :> kind[E.from]) @@ kind /\ UNCHANGED <<memo, rng>>
Op == IsEvent("op") /\ UNCHANGED kind /\ 
      \* a seed makes a source forget all it was
      Answer(IF kind[E.run] = "rng" /\ E.c = "seed" THEN 1 ELSE at[E.run], E.cmd, E.out, E.rng, E.c \in PureOf(kind[E.run]))
Next == Session \/ Dirty \/ Close \/ Open \/ Copy \/ Op
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
