---------------------------- MODULE TraceNumeric ----------------------------
(* Trace validation of special functions, vector operations and score      *)
(* normalisation against Numeric.                                           *)
EXTENDS Numeric, TLC, Json, IOUtils
CONSTANTS Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f
vars == <<l, f>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ UNCHANGED f
Judge(ps, what, ok, got, want) ==
    IF ps \cap Props = {} \/ ok THEN TRUE
    ELSE PrintT(<<"REJECT", l, ps \cap Props, what, got, want>>) /\ FALSE
Single == f \in {"cc", "lp"}

Init == l = 1 /\ f = "none"
Session == l <= Len(Trace) /\ E.e = "session" /\ l' = l + 1 /\ f' = E.f
Fn == /\ IsEvent("fn")
      /\ \A i \in 1..Len(E.x) :
           Judge({IF E.f \in Scores2 THEN "C23" ELSE "C22"}, <<E.f, E.x[i]>>,
                 FnOk(E.f, IF Single /\ E.f # "fast_log_factorial" THEN Fs(E.x[i]) ELSE E.x[i], E.y[i]), E.y[i],
                 IF NegInf \in {E.x[i][j] : j \in 1..Len(E.x[i])} THEN "-" ELSE
                 IF E.f \in {"log_beta", "fast_log_beta"} THEN "ln Beta" ELSE RShow(Exact(E.f, E.x[i])))
\* every value of f between two floats differs from the cubic by rmin..rmax, the
\* cubic stands for the exact function: so |f - exact| is bounded on the cell
Cell(c) ==
    LET rel == E.mode = "rel"
        e == Exact1(E.f, c.a)
        t == IF rel THEN Tol1(E.f, c.a, "1") ELSE RMin(Tol1(E.f, c.lo, e), Tol1(E.f, RSub(RAdd(c.a, c.w), RMul("1e-7", c.w)), Exact1(E.f, RAdd(c.a, c.w))))
        slack == RAdd(t, Left(E.f, c.a, c.w))
    IN  /\ REq(F(c.lo), F(c.a))
        /\ RLe(RSub(RAdd(c.a, c.w), c.hi), RMul("1e-6", RAbs(c.hi))) /\ RLe(RSub(c.hi, RAdd(c.a, c.w)), RMul("1e-6", RAbs(c.hi)))
        /\ Stands(E.f, c.c, c.a, c.w, rel)
        /\ c.bad = 0
        /\ c.n = 0 \/ (RLe(RNeg(slack), c.rmin) /\ RLe(c.rmax, slack))
Sweep == /\ IsEvent("sweep")
         /\ \A i \in 1..Len(E.cells) :
              Judge({"C22"}, <<E.f, E.cells[i].lo, E.cells[i].hi>>, Cell(E.cells[i]), E.cells[i], "within the accuracy of the function")
         /\ \A i \in 1..(Len(E.cells) - 1) : Judge({"C22"}, <<"gap", i>>, E.cells[i].hi = E.cells[i + 1].lo, E.cells[i].hi, E.cells[i + 1].lo)
Stirling == IsEvent("stirling") /\ Judge({"C22"}, E, RowOk(RToInt(E.n), E.r), E.r, RStirling(RToInt(E.n)))
BigRow == IsEvent("bigrow") /\ Judge({"C22"}, <<E.n, E.k>>, LongRowOk(RToInt(E.n), E.len, E.bad, E.k, E.r), <<E.bad, E.r>>, [i \in 1..Len(E.k) |-> IF E.k[i] \in {"0", E.n} THEN "end" ELSE SoftMin(RToInt(E.n), RToInt(E.k[i]))])
V(v) == IF Single THEN Fs(v) ELSE v
ScoresEv ==
    /\ IsEvent("scores")
    /\ \E s \in {V(E.s)} :
       CASE E.f = "lse" -> Judge({"C23"}, E, LseOk(s, E.r, Single) /\ E.same = 1, E.r, "log sum exp")
         [] E.f = "likelihoods" -> Judge({"C23"}, E, Possible(s) # {} => LikelihoodsOk(s, E.r) /\ TotalOk(s, E.total), E.r, "weights")
         [] E.f = "probs" -> Judge({"C23"}, E, Possible(s) # {} => ProbsOk(s, E.r, Single), E.r, "probabilities")
Vec == /\ IsEvent("vec")
       /\ Judge({"C23"}, E, E.kept = 1, E, "nothing outside the output changes")
       /\ \E io \in {V(E.io)} : \E a \in {V(E.a)} : \E b \in {V(E.b)} : \E s \in {F(E.s)} :
          IF E.f \in Reduce THEN Judge({"C23"}, E, RFin(E.r) /\ ReduceOk(E.f, io, a, F(E.r)), E.r, "reduction")
          ELSE /\ Judge({"C23"}, E, Len(E.r) = Len(io), E.r, "length")
               /\ \A i \in 1..Len(E.r) :
                    Judge({"C23"}, <<E.f, i>>,
                          RFin(E.r[i]) /\ PlaceOk(E.f, IF i > Len(io) THEN "0" ELSE io[i], IF a = <<>> THEN "0" ELSE a[i],
                                                  IF b = <<>> THEN "0" ELSE b[i], s, E.r[i]),
                          E.r[i], E)
Next == Session \/ Fn \/ Sweep \/ Stirling \/ BigRow \/ ScoresEv \/ Vec
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
