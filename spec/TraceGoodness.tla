---------------------------- MODULE TraceGoodness ----------------------------
(* Trace validation of distributions.util against GoodnessOfFit.            *)
EXTENDS GoodnessOfFit, TLC, Json, IOUtils
CONSTANTS Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Judge(what, ok, got, want) ==
    IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, Props, what, got, want>>) /\ FALSE
Init == l = 1
Session == IsEvent("session")
Show(S) == {RShow(w) : w \in S}
Multi == /\ IsEvent("multi")
         /\ \E want \in {PValues(E.p, E.c, E.n, E.t = 1)} :
              Judge(<<"p-value", E.p, E.c>>, Same(E.y, want) /\ E.same = 1, E.y, Show(want))
\* one choice of values for all the data sets of the event
Discrete == /\ IsEvent("discrete")
            /\ Judge("arguments", E.same = 1, E, "unchanged")
            /\ \E m \in {IF E.m = 0 \/ E.m > Len(E.k) THEN Len(E.k) ELSE E.m} :
                 Judge(<<"p-value", E.p, E.m>>,
                       \E ix \in Likeliest(E.p, m) : \A d \in 1..Len(E.x) : Same(E.y[d], DiscretePValues(E.x[d], E.k, E.p, ix)),
                       E.y, [d \in 1..Len(E.x) |-> [ix \in Likeliest(E.p, m) |-> Show(DiscretePValues(E.x[d], E.k, E.p, ix))]])
Unif01 == /\ IsEvent("unif01")
          /\ \E k \in {Cut(Len(E.x))} :
               (\E i \in 1..Len(E.x) : ~REq(E.x[i], "1") /\ ~REq(E.x[i], "0") /\ NearEdge(E.x[i], k))
               \/ \E want \in {Unif(E.x)} : Judge("uniform", Same(E.y, want), E.y, Show(want))
Density == /\ IsEvent("density")
           /\ \E us \in {Spacing(E.x, E.q)} : \E k \in {Cut(Len(us))} :
                /\ Sorted(E.x)             \* the script's own order of the samples
                /\ \/ \E i \in 1..Len(us) : NearEdge(us[i], k) /\ RLt(us[i], "0.9999999") /\ RLt("1e-7", us[i])
                   \/ \E want \in {Unif(us)} : Judge("density", Same(E.y, want), E.y, Show(want))
BinsEv == IsEvent("bins") /\ Judge(<<"bins", E.n>>, Sorted(E.x) /\ BinsOk(E.x, E.n, E.c, E.lo, E.hi, E.ends), <<E.c, E.lo, E.hi>>, E.x)
Hist == IsEvent("hist") /\ Judge("histogram", HistogramOk(E.x, E.n, E.v), E.v, E.x)
Kl == IsEvent("kl") /\ Judge("divergence", RClose(E.y, Divergence(E.s, E.n), "1e-12", "1e-12"), E.y, RShow(Divergence(E.s, E.n)))
\* every outcome of an experiment, by the real code: how often would it reject the truth?
Calib == /\ IsEvent("calib")
         /\ \E all \in {Size(E.p, E.c, E.y, E.n, "1")} : RClose(all, "1", "1e-9", "0")      \* the script left no outcome out
         /\ \A i \in 1..Len(E.y) : Judge("a p-value", RFin(E.y[i]) /\ RLe("0", E.y[i]) /\ RLe(E.y[i], "1"), E.y[i], E.c[i])
         /\ \A a \in {"0.1", "0.05", "0.01"} :
              \E s \in {Size(E.p, E.c, E.y, E.n, a)} : Judge(<<"rejects the truth", E.what>>, Honest(s, a) /\ Useful(s, a), RShow(s), a)
Next == Session \/ Multi \/ Discrete \/ Unif01 \/ Density \/ BinsEv \/ Hist \/ Kl \/ Calib
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
