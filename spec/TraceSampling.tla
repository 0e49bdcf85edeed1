---------------------------- MODULE TraceSampling ----------------------------
(* Trace validation of the samplers (see Sampling): single draws from an    *)
(* engine whose next number u is known, counts over a grid of u, counts     *)
(* over many draws, and counts of continuous draws below thresholds.        *)
EXTENDS Sampling, TLC, Json, IOUtils
CONSTANTS Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, f
vars == <<l, f>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ UNCHANGED f
Judge(ps, what, ok, got, want) ==
    IF ps \cap Props = {} \/ ok THEN TRUE
    ELSE PrintT(<<"REJECT", l, ps \cap Props, what, got, want>>) /\ FALSE

Single == f \in {"cc", "lp"}
Scores == {"scores", "scoreso", "sprob", "dlog", "sfs", "toprobs"}
\* weights of the outcomes of a call
W == CASE E.c \in Scores -> Liks(E.p)
       [] E.c = "bern" -> <<RSub("1", E.p[1]), E.p[1]>>
       [] E.c = "int" -> [i \in 1..(E.hi - E.lo + 1) |-> "1"]
       [] E.c = "urn" -> [i \in 1..Len(E.p) |-> "1"]
       [] E.c = "pair" -> LET n == Len(E.p) IN
                          [k \in 1..(n * n) |-> IF (k - 1) \div n = (k - 1) % n THEN "0" ELSE "1"]
       [] OTHER -> E.p
\* rounding of cumulative sums, of approximate exponentials and of the total
EpsOf(w) == RMul(RMul(RInt(Len(w) + 8), IF Single THEN IF E.c \in Scores THEN "4e-7" ELSE "1.3e-7" ELSE "1e-14"), Total(w))
Ps == IF E.c \in {"urn", "pair", "int"} THEN {"C26"} ELSE {"C17"}

Init == l = 1 /\ f = "none"
Session == l <= Len(Trace) /\ E.e = "session" /\ l' = l + 1 /\ f' = E.f
Other == IsEvent("other")

(* one draw at a known u *)
Ordered == E.c \notin {"int", "urn", "pair", "bern"}
Draw == /\ IsEvent("draw")
        /\ LET w == W  i == E.r + 1  eps == EpsOf(w)  t == RMul(E.u, Total(w)) IN
           Judge(Ps, E,
                 IF Ordered THEN Chosen(w, i, t, eps)
                 ELSE IF E.c = "bern" THEN i \in 1..2 /\ RLt("0", w[i]) /\
                          (IF E.r = 1 THEN RLe(E.u, RAdd(w[2], eps)) ELSE RLe(w[2], RAdd(E.u, eps)))
                 ELSE i \in 1..Len(w) /\ w[i] # "0",
                 <<E.r, IF "q" \in DOMAIN E THEN E.q ELSE "-">>, <<"t", RShow(t), "weights", w>>)
        /\ "q" \in DOMAIN E =>
           LET w == W IN
           Judge(Ps, E, RClose(E.q, RDiv(w[E.r + 1], Total(w)), EpsOf(w), "1e-5"), E.q, RShow(RDiv(w[E.r + 1], Total(w))))
(* a grid of n values of u *)
Share(w, i) == RDiv(w[i], Total(w))
Grid == /\ IsEvent("grid")
        /\ Judge(Ps, E, "out" \notin DOMAIN E, "result out of range", "")
        /\ LET w == W  eps == RDiv(RMul("2", EpsOf(w)), Total(w)) IN
           /\ Judge(Ps, E, Len(w) = Len(E.r), Len(E.r), Len(w))
           /\ \A i \in 1..Len(w) : Judge(Ps, <<E, i>>, GridOk(E.r[i], E.n, Share(w, i), eps), E.r[i], RShow(RMul(RInt(E.n), Share(w, i))))
(* n draws in a row *)
Freq == /\ IsEvent("freq")
        /\ Judge(Ps, E, "out" \notin DOMAIN E, "result out of range", "")
        /\ LET w == W  eps == RDiv(EpsOf(w), Total(w)) IN
           /\ Judge(Ps, E, Len(w) = Len(E.r), Len(E.r), Len(w))
           /\ \A i \in 1..Len(w) : Judge(Ps, <<E, i>>, CountOk(E.r[i], E.n, Share(w, i), eps), E.r[i], RShow(RMul(RInt(E.n), Share(w, i))))
(* urns and ranges too large to list: the shares of the residues and tenths *)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
BigUrn == /\ IsEvent("bigurn")
          /\ LET N == E.items
                 upTo(k) == RFloor(RDiv(RAdd(RMul(RInt(N), RInt(k)), "9"), "10"))      \* items x with 10 x < k N
                 resid(m, a) == (N - 1 - a) \div m + 1
                 ok(got, many) == CountOk(got, E.n, RDiv(many, RInt(N)), "1e-6") IN
             /\ Judge({"C26"}, E, E.bad = 0 /\ E.same = 0, <<E.bad, E.same>>, "items of the urn, pairs distinct")
             /\ \A k \in 1..10 : Judge({"C26"}, <<E, "tenth", k>>, ok(E.part[k], RSub(upTo(k), upTo(k - 1))), E.part[k], E.n)
             /\ \A j \in 1..Len(E.mods) : \A a \in 0..(E.mods[j] - 1) :
                   LET got == E.res[SumTo(E.mods, j - 1) + a + 1] IN
                   Judge({"C26"}, <<E, "residue", E.mods[j], a>>, ok(got, RInt(resid(E.mods[j], a))), got, E.n)
(* the reported log probability *)
ScoreOf == /\ IsEvent("sfs")
           /\ LET w == Liks(E.p)  p == RDiv(w[E.i + 1], Total(w))  x == E.p[E.i + 1] IN
              Judge({"C17"}, E,
                    IF x = "-inf" THEN E.r = "-inf"
                    ELSE LET mx == MaxOf(E.p)  want == RSub(RSub(x, mx), RLn(Total(w))) IN
                         RClose(E.r, want, RAdd("8e-5", RMul("2e-7", RAdd(RAbs(x), RAbs(mx)))), "1e-6"),
                    E.r, RShow(p))
ProbOf == /\ IsEvent("pfs")
          /\ LET w == Liks(E.p)  p == RDiv(w[E.i + 1], Total(w)) IN
             Judge({"C17"}, E, RClose(E.r, p, "1e-6", RAdd("8e-5", RMul("3e-7", RAbs(MaxOf(E.p))))), E.r, RShow(p))
(* urns that are too small *)
Small == E.op \in {"urn", "pair"} /\ Len(E.a) < (IF E.op = "urn" THEN 1 ELSE 2)
Refused == IsEvent("err") /\ Judge({"C17", "C18", "C26"}, E, Small, E, "the call is allowed and must succeed")

(* continuous samplers *)
Dot(a, b) == RSum([i \in 1..Len(a) |-> RMul(a[i], b[i])])
Sq(s) == LET d == CHOOSE d \in 0..20 : d * d = Len(s) IN [i \in 1..d |-> [j \in 1..d |-> s[(i - 1) * d + j]]]
Quad(w, s) == LET q == Sq(s) IN Dot(w, [i \in 1..Len(w) |-> Dot(q[i], w)])
Dof == RSub(E.nu, RInt(Len(E.w) - 1))
DirA(i) == IF E.d = "dirs" THEN RAdd(E.alphas[i], E.min) ELSE E.alphas[i]
In == {i \in 1..Len(E.alphas) : E.w[i] = "1"}
Sum(S) == RSum([i \in S |-> DirA(i)])
DirCdf(x) == LET a == Sum(In)  b == Sum((1..Len(E.alphas)) \ In) IN
             IF REq(b, "0") THEN IF RLe("0.99999", x) THEN "1" ELSE "0" ELSE
             IF REq(a, "0") THEN IF RLe("0", x) THEN "1" ELSE "0" ELSE BetaCdf(x, a, b)
Cdf(x) ==
    CASE E.d = "unif" -> RMax("0", RMin("1", x))
      [] E.d = "stdnormal" -> NormalCdf(x, "0", "1")
      [] E.d \in {"normal", "hnormal"} -> NormalCdf(x, E.mean, E.var)
      [] E.d \in {"chisq", "hchisq"} -> ChisqCdf(x, E.nu)
      [] E.d \in {"gamma", "hgamma"} -> GammaCdf(x, E.a, E.b)
      [] E.d = "gamma1" -> GammaCdf(x, E.a, "1")
      [] E.d = "beta" -> BetaCdf(x, E.a, E.b)
      [] E.d = "betas" -> BetaCdf(RSub(RMul(x, RAdd("1", E.min)), E.min), E.a, E.b)
      [] E.d \in {"poisson", "hpoisson"} -> IF RLt(x, "0") THEN "0" ELSE PoissonCdf(RFloor(x), E.mean)
      [] E.d = "nb" -> IF RLt(x, "0") THEN "0" ELSE NegBinCdf(RFloor(x), E.p, E.rr)
      [] E.d \in {"dir", "hdir"} -> DirCdf(x)
      [] E.d = "dirs" -> LET n == RInt(Len(E.alphas)) IN
             DirCdf(RSub(RMul(x, RAdd("1", RMul(n, E.min))), RMul(RInt(Cardinality(In)), E.min)))
      [] E.d = "mvn" -> NormalCdf(x, Dot(E.w, E.mu), Quad(E.w, E.S))
      [] E.d = "wishart" -> ChisqCdf(RDiv(x, Quad(E.w, E.S)), E.nu)
      [] E.d \in {"iwishart", "niwcov"} -> IF RLe(x, "0") THEN "0"
             ELSE RSub("1", ChisqCdf(RDiv(Quad(E.w, E.S), x), Dof))
      [] E.d = "niwmu" -> StudentCdf(x, Dof, Dot(E.w, E.mu), RDiv(Quad(E.w, E.S), RMul(E.lambda, Dof)))
      [] E.d = "niwx" -> StudentCdf(x, Dof, Dot(E.w, E.mu),
             RDiv(RMul(Quad(E.w, E.S), RAdd("1", E.lambda)), RMul(E.lambda, Dof)))
\* draws are rounded to single precision, with nothing between zero and 1.2e-38
Rounded == {"gamma", "hgamma", "gamma1", "chisq", "hchisq", "beta", "betas", "dir", "hdir", "dirs"}
Under(x) == RSub(RSub(x, RMul("2e-7", RAbs(x))), "2e-38")
Over(x) == RAdd(RAdd(x, RMul("2e-7", RAbs(x))), "2e-38")
CdfEv == /\ IsEvent("cdf")
         /\ Judge({"C18"}, E, E.bad = 0, E.bad, "no draws outside the domain")
         /\ \A i \in 1..Len(E.th) :
              LET p == Cdf(E.th[i])
                  ok == CountOk(E.r[i], E.n, p, "1e-5") \/
                        (E.d \in Rounded /\ CountIn(E.r[i], E.n, Cdf(Under(E.th[i])), Cdf(Over(E.th[i])), "1e-5"))
              IN  Judge({"C18"}, <<E, i>>, ok, E.r[i], RShow(RMul(RInt(E.n), p)))
         /\ E.d \in {"unif", "beta", "betas", "dir", "dirs", "hdir"} =>
              Judge({"C18"}, E, RLe("0", E.min_seen) /\ RLe(E.max_seen, "1.00001") /\
                                (E.d = "unif" => RLt(E.max_seen, "1")), E, "in [0, 1]")
         /\ E.d \in {"gamma", "hgamma", "gamma1", "chisq", "hchisq", "poisson", "hpoisson", "nb", "wishart", "iwishart", "niwcov"} =>
              Judge({"C18"}, E, RLe("0", E.min_seen), E, "not negative")

Next == Session \/ Other \/ Draw \/ Grid \/ Freq \/ BigUrn \/ ScoreOf \/ ProbOf \/ Refused \/ CdfEv
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
