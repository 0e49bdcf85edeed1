--------------------------- MODULE TraceConcurrency --------------------------
(***************************************************************************)
(* Recorded runs of several threads.  Accesses to memory that two threads  *)
(* use and one of them writes must be ordered by synchronisation (vector   *)
(* clocks: every thread, lock, once-flag and atomic carries how much of    *)
(* every thread it has seen), and every call must answer what it answers   *)
(* when its thread runs alone: all calls are linearised by doing nothing   *)
(* to each other.  Nobody may get stuck or die.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, clk, seen, acc, alone, done
vars == <<l, n, clk, seen, acc, alone, done>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Judge(ok, what, got, want) ==
    IF "C25" \notin Props \/ ok THEN TRUE ELSE PrintT(<<"REJECT", l, {"C25"}, what, got, want>>) /\ FALSE
Empty == [x \in {} |-> 0]
T == 1..n
Zero == [t \in T |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in T |-> Max(a[t], b[t])]
Of(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f

Init == l = 1 /\ n = 0 /\ clk = <<>> /\ seen = Empty /\ acc = Empty /\ alone = Empty /\ done = 0
Session == IsEvent("session") /\ n' = 0 /\ clk' = <<>> /\ seen' = Empty /\ acc' = Empty /\ alone' = Empty /\ done' = 0
Other == (IsEvent("other") \/ IsEvent("thread")) /\ UNCHANGED <<n, clk, seen, acc, alone, done>>
\* nothing that happened before the threads start can conflict with them
Go == /\ IsEvent("go") /\ n' = E.n /\ clk' = [t \in 1..E.n |-> [u \in 1..E.n |-> IF t = u THEN 1 ELSE 0]]
      /\ seen' = Empty /\ acc' = Empty /\ done' = 0 /\ UNCHANGED alone

\* synchronisation
Sy == Of(seen, E.x, [w |-> Zero, r |-> Zero])
Tick(c, t) == [c EXCEPT ![t][t] = @ + 1]
Sync == /\ UNCHANGED <<n, acc, alone, done>>
        /\ \/ IsEvent("acq") /\ clk' = [clk EXCEPT ![E.t] = Join(@, Join(Sy.w, Sy.r))] /\ UNCHANGED seen
           \/ IsEvent("acqr") /\ clk' = [clk EXCEPT ![E.t] = Join(@, Sy.w)] /\ UNCHANGED seen
           \/ IsEvent("ld") /\ clk' = [clk EXCEPT ![E.t] = Join(@, Sy.w)] /\ UNCHANGED seen
           \/ IsEvent("rel") /\ seen' = Put(seen, E.x, [Sy EXCEPT !.w = Join(@, clk[E.t])]) /\ clk' = Tick(clk, E.t)
           \/ IsEvent("st") /\ seen' = Put(seen, E.x, [Sy EXCEPT !.w = clk[E.t]]) /\ clk' = Tick(clk, E.t)
           \/ IsEvent("relr") /\ seen' = Put(seen, E.x, [Sy EXCEPT !.r = Join(@, clk[E.t])]) /\ clk' = Tick(clk, E.t)
           \/ IsEvent("rmw") /\ \E c \in {Join(clk[E.t], Sy.w)} :
                 seen' = Put(seen, E.x, [Sy EXCEPT !.w = c]) /\ clk' = Tick([clk EXCEPT ![E.t] = c], E.t)

\* accesses: the last time every thread read and wrote, plainly (r, w) and atomically (ar, aw)
Never == [k \in {"r", "w", "ar", "aw"} |-> Zero]
Conflicts(k) == CASE k = "r" -> {"w", "aw"} [] k = "w" -> {"r", "w", "ar", "aw"} [] k = "ar" -> {"w"} [] k = "aw" -> {"r", "w"}
Access == \E k \in {"r", "w", "ar", "aw"} :
    /\ IsEvent(k) /\ UNCHANGED <<n, clk, seen, alone, done>>
    /\ LET a == Of(acc, E.x, Never) IN
       /\ Judge(\A u \in T \ {E.t} : \A j \in Conflicts(k) : a[j][u] <= clk[E.t][u], "race", <<E, a>>, clk[E.t])
       /\ acc' = Put(acc, E.x, [a EXCEPT ![k][E.t] = clk[E.t][E.t]])

\* answers
Op == /\ IsEvent("op") /\ UNCHANGED <<n, clk, seen, acc>> /\ done' = done + 1
      /\ LET key == <<E.t, E.k>>  got == <<E.cmd, E.out, E.rng>> IN
         IF key \in DOMAIN alone THEN Judge(got = alone[key], "answer", got, alone[key]) /\ UNCHANGED alone
         ELSE alone' = Put(alone, key, got)
End == /\ IsEvent("end") /\ UNCHANGED <<n, clk, seen, acc, alone, done>>
       /\ Judge(done = Cardinality(DOMAIN alone), "all threads finish", done, Cardinality(DOMAIN alone))
Next == Session \/ Other \/ Go \/ Sync \/ Access \/ Op \/ End
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
