----------------------------- MODULE TraceModels -----------------------------
(***************************************************************************)
(* Trace validation of the component models and of mixtures of them.       *)
(*                                                                         *)
(* The state is the abstract state of Models.tla: every group is the bag   *)
(* of values it holds, a mixture is a sequence of groups.  Each line of    *)
(* the trace is one call of the public API with its arguments and its      *)
(* result; the line is a step of this spec iff the operation is allowed in *)
(* the current state and the result is what the mathematics of Models.tla  *)
(* says, within the declared rounding of the implementation.               *)
(* `Props` selects the properties whose observations are judged; state     *)
(* transitions are always followed.                                        *)
(***************************************************************************)
EXTENDS Models, Sampling, TLC, Json, IOUtils

CONSTANTS Props

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,      \* the next line of the trace
    m,      \* the model of the session
    f,      \* the flavour of the session ("cc", "lp", "hp", "dbg")
    shs,    \* id -> [sh: hyperparameters, raw: as dumped, ld: came through a dump, drift]
    cur,    \* the id of the hyperparameters in use
    G,      \* id -> group
    X       \* id -> mixture: sequence of groups
vars == <<l, m, f, shs, cur, G, X>>

Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

\* Judging an observation: rejected lines name the property, the call, what
\* was observed and what the specification allows.
Judge(ps, what, ok, got, want) ==
    IF ps \cap Props = {} THEN TRUE
    ELSE IF ok THEN TRUE
    ELSE PrintT(<<"REJECT", l, ps \cap Props, what, got, want>>) /\ FALSE

---------------------------------------------------------------------------
(* rounding of the implementations                                         *)
(* "cc" and "lp" compute in single precision with the approximations of       *)
(* special.hpp: fast_log is off by up to 6.1e-5, fast_lgamma by 5e-5 around    *)
(* 8 and 1e-6 relative beyond, fast_lgamma_nu by up to 0.0153.  "dbg" and "hp" *)
(* compute in double precision.  Noise adds up what the logarithms (pairs      *)
(* coefficient, argument) and gamma functions of one formula contribute.       *)
Single(ff) == ff \in {"cc", "lp"}
Eps(ff) == IF Single(ff) THEN "1.2e-7" ELSE "4e-16"
LogNoise(ff, c, x) ==
    IF Single(ff) THEN RMul(RAbs(c), RAdd("7e-5", RMul("4e-7", RAbs(RLn(x)))))
    ELSE RMul(RMul("1e-14", RAbs(c)), RAdd("1", RAbs(RLn(x))))
LgNoise(ff, x) ==
    IF Single(ff) THEN RAdd("7e-5", RMul("2e-6", RAbs(RLnGamma(x))))
    ELSE RMul("1e-13", RAdd("1", RAbs(RLnGamma(x))))
Floor(ff) == IF Single(ff) THEN "1e-4" ELSE "1e-11"
Noise(ff, logs, lgs) ==
    RSum(<<Floor(ff), RSum([i \in 1..Len(logs) |-> LogNoise(ff, logs[i][1], logs[i][2])]),
           RSum([i \in 1..Len(lgs) |-> LgNoise(ff, lgs[i])])>>)

(* a group: bag B; n = operations since it was last created, peak = largest *)
(* size it had, mag = largest |value| it ever held (rounding grows with     *)
(* these); tags = how it came about                                         *)
(* hull = least and largest value it ever held (nich)                       *)
NewGroup == [B |-> EmptyBag, n |-> 0, peak |-> 0, mag |-> "0", hull |-> <<>>, tags |-> {}]

Kinds == {"bb", "dd", "dpd", "gp", "bnb"}             \* discrete models
RECURSIVE VMag(_)
VMag(v) == IF v = <<>> THEN "0" ELSE RMax(RAbs(Head(v)), VMag(Tail(v)))
Mag(v) == IF m = "nich" THEN RAbs(v) ELSE IF m = "niw" THEN VMag(v)
          ELSE IF m \in {"gp", "bnb"} THEN v ELSE "0"
IAbs(x) == IF x < 0 THEN -x ELSE x
IMax(x, y) == IF x > y THEN x ELSE y
Hull(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE <<RMin(a[1], b[1]), RMax(a[2], b[2])>>
AddTo(g, v, n) ==
    LET b == BagAdd(g.B, v, n) IN
    [g EXCEPT !.B = b, !.n = @ + 1, !.peak = IMax(@, IAbs(Size(b))), !.mag = RMax(@, Mag(v)),
              !.hull = IF m = "nich" THEN Hull(@, <<v, v>>) ELSE @,
              !.tags = @ \cup (IF n = 1 THEN {} ELSE IF n > 1 /\ Size(g.B) = 0 THEN {"rep", "rep0"} ELSE {"rep"})]
MergeOf(g, h) ==
    LET b == BagUnion(g.B, h.B) IN
    [B |-> b, n |-> g.n + h.n + 1, peak |-> IMax(IMax(g.peak, h.peak), Size(b)),
     mag |-> RMax(g.mag, h.mag), hull |-> Hull(g.hull, h.hull), tags |-> g.tags \cup h.tags \cup {"merge"}]

\* rounding allowed in a first-moment and a second-moment statistic
\* a group that went through a protobuf message holds single-precision numbers
EpsOf(ff, g) == IF "f32" \in g.tags THEN "1.2e-7" ELSE Eps(ff)
Slack(ff, g) == RMul(EpsOf(ff, g), RInt(2 + g.n * (1 + g.peak)))
Slack1(ff, g) == RMul(Slack(ff, g), RMax("1", g.mag))
Slack2All(ff, g) == RMul(RMul(Slack(ff, g), RInt(4)), RMul(RMax("1", g.mag), RMax("1", g.mag)))
\* squared deviations are summed as deviations: values far from zero but close
\* to each other lose only what the mean loses times their spread.  (A value
\* repeated into an empty group is the exception: its mean is rounded.)
Slack2Near(ff, g) ==
    LET k == IF g.tags \cap {"rep", "merge"} = {} THEN 2 ELSE 1 + g.peak
        s1 == Slack1(ff, g)
        d == RMax("1", IF g.hull = <<>> THEN "0" ELSE RSub(g.hull[2], g.hull[1]))
    IN  RAdd(RMul(RMul(EpsOf(ff, g), RInt(8 * (2 + g.n * k))), RMul(RAdd(RMax("1", g.mag), d), d)),
             RMul(RInt(g.n + g.peak + 1), RMul(s1, s1)))
Slack2(ff, g) == IF m = "nich" /\ "rep0" \notin g.tags THEN RMin(Slack2All(ff, g), Slack2Near(ff, g)) ELSE Slack2All(ff, g)

\* which properties an observation of a group speaks to
Tagged(g) == (IF "merge" \in g.tags THEN {"C03"} ELSE {})
        \cup (IF "load" \in g.tags THEN {"C19"} ELSE {}) \cup {"C21"}
StatProps(g) == Tagged(g) \cup (IF m \in Kinds THEN {"C01"} ELSE {"C02"})
PredProps(g) == Tagged(g) \cup (IF m \in Kinds THEN {"C04"} ELSE {"C05"})
MargProps(g) == Tagged(g) \cup {"C06"}

---------------------------------------------------------------------------
(* hyperparameters as read from the trace                                  *)
ToFcn(ks, vs) == RFcn(ks, vs)
Square(s) == LET d == CHOOSE d \in 0..100 : d * d = Len(s)
             IN  [i \in 1..d |-> [j \in 1..d |-> s[(i - 1) * d + j]]]
Conv(sh) ==
    CASE m = "niw" -> [mu |-> sh.mu, kappa |-> sh.kappa, psi |-> Square(sh.psi), nu |-> sh.nu]
      [] m = "dpd" -> [gamma |-> sh.gamma, alpha |-> sh.alpha,
                       betas |-> ToFcn(sh.values, sh.betas),
                       counts |-> ToFcn(sh.values, sh.counts),
                       beta0 |-> IF "beta0" \in DOMAIN sh THEN sh.beta0
                                 ELSE RMax("0", RSub("1", RSum(sh.betas)))]
      [] OTHER -> sh

---------------------------------------------------------------------------
(* observations                                                            *)
CloseSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], tol, "0")

StatsOk(g, r, sh) ==
    CASE m = "bb"  -> REq(r.heads, RInt(Count(g.B, "1"))) /\ REq(r.tails, RInt(Count(g.B, "0")))
      [] m = "dd"  -> /\ Len(r.counts) = Len(sh.alphas)
                      /\ \A i \in 1..Len(r.counts) : REq(r.counts[i], RInt(Count(g.B, RInt(i - 1))))
      [] m = "dpd" -> /\ Cardinality({r.keys[i] : i \in 1..Len(r.keys)}) = Len(r.keys)
                      /\ {r.keys[i] : i \in 1..Len(r.keys)} = DOMAIN g.B
                      /\ \A i \in 1..Len(r.keys) : REq(r.values[i], RInt(g.B[r.keys[i]]))
      [] m = "gp"  -> /\ REq(r.count, RSize(g.B)) /\ REq(r.sum, SumValues(g.B))
                      /\ RClose(r.log_prod, LogProd(g.B),
                                RMul(Slack(f, g), RAdd("10", LnFact(g.mag))),
                                IF Single(f) THEN "1e-5" ELSE RMax("1e-12", RMul("4", EpsOf(f, g))))
      [] m = "bnb" -> REq(r.count, RSize(g.B)) /\ REq(r.sum, SumValues(g.B))
      [] m = "nich" -> /\ REq(r.count, RSize(g.B))
                       /\ RClose(r.mean, MeanOf(g.B), Slack1(f, g), "0")
                       /\ RClose(r.ctv, CtvOf(g.B), Slack2(f, g), "0")
                       \* however large the values that left: none leaves nothing behind
                       /\ Size(g.B) = 0 => REq(r.mean, "0")
                       /\ Size(g.B) \in {0, 1} => REq(r.ctv, "0")
      [] m = "niw" -> /\ REq(r.count, RSize(g.B))
                      /\ CloseSeq(r.sum_x, NiwSumX(sh, g.B), Slack1(f, g))
                      /\ LET q == Square(r.sum_xxt)  w == NiwSumXX(sh, g.B) IN
                         Len(q) = Len(w) /\ \A i \in 1..Len(w) : CloseSeq(q[i], w[i], Slack2(f, g))

StatsWant(g, sh) ==
    CASE m = "nich" -> [count |-> Size(g.B), mean |-> RShow(MeanOf(g.B)), ctv |-> RShow(CtvOf(g.B)),
                        slack |-> <<RShow(Slack1(f, g)), RShow(Slack2(f, g))>>]
      [] OTHER -> g.B

\* extra rounding a score inherits from rounded second moments
Carry(g, sh) ==
    CASE m = "nich" ->
           LET t == RAdd(RMul(sh.nu, sh.sigmasq), RDiv(CtvOf(g.B), "2"))
               off == RAbs(RSub(sh.mu, MeanOf(g.B)))
               e == RAdd(Slack1(f, g), RMul(EpsOf(f, g), RAbs(sh.mu)))
               w == RDiv(RMul(sh.kappa, RSize(g.B)), RAdd(sh.kappa, RSize(g.B)))
               far == RMul(w, RMul(e, RAdd(RMul("4", off), e)))
               \* what the distance from the mean of the prior adds to the scale
               t2 == RAdd(t, RDiv(RMul(w, RMul(off, off)), "2"))
           IN  RAdd(RDiv(RMul(RAdd(RAdd(sh.nu, RSize(g.B)), "2"), RMul("2", Slack2(f, g))), t),
                    RDiv(RMul(RAdd(RAdd(sh.nu, RSize(g.B)), "2"), far), t2))
      [] m = "niw" ->
           LET mx == RMax("1", RMul(g.mag, g.mag))
           IN  RMul(RMul(RMul(RAdd(RAdd(sh.nu, RSize(g.B)), "2"), RInt(8)),
                         RMul(Slack2(f, g), mx)), RDiv("1", RMin("1", sh.psi[1][1])))
      [] OTHER -> "0"

\* rounding of log_prod: table below 64, fast_lgamma above
LogProdNoise(ff, g) == RMul(RInt(g.n * (1 + g.peak)), RMul(EpsOf(ff, g), RAdd("4", RMul("10", LnFact(g.mag)))))
\* rounding of one evaluation of the predictive and of the marginal likelihood
PredNoise(g, sh, v) ==
    LET n == RSize(g.B) IN
    CASE m \in {"bb", "dd", "dpd"} -> Noise(f, << <<"3", "2">>, <<"1", RAdd(n, "1000")>> >>, <<>>)
      [] m = "gp" -> LET p == Post("gp", sh, g.B) IN
           Noise(f, << <<p.alpha, p.inv_beta>>, <<RAdd(p.alpha, v), RAdd(p.inv_beta, "1")>> >>,
                 << p.alpha, RAdd(p.alpha, v), RAdd(v, "1") >>)
      [] m = "bnb" -> LET p == Post("bnb", sh, g.B)
                          a == RAdd(p.alpha, p.r)  b == RAdd(p.beta, v) IN
           Noise(f, <<>>, << p.alpha, p.beta, RAdd(p.alpha, p.beta), a, b, RAdd(a, b) >>)
      [] m = "nich" -> LET p == NichPost(sh, g.B) IN
           RAdd(RAdd(IF Single(f) THEN "0.0165" ELSE "0",
                     \* v minus a mean, both far from zero
                     RDiv(RMul(RAdd(p.nu, "2"), RAdd(Slack1(f, g), RMul(RMul("8", EpsOf(f, g)), RMax(RAbs(v), RAbs(p.mu))))),
                          RSqrt(RMul(p.nu, p.sigmasq)))),
                Noise(f, << <<"2", p.sigmasq>>, <<p.nu, p.sigmasq>>, <<p.nu, RAdd("1", SqDiff(v, p.mu))>> >>, <<p.nu>>))
      [] m = "niw" -> LET p == NiwPost(sh, g.B)  d == RInt(NiwDim(sh)) IN
           Noise(f, << <<d, p.nu>>, <<RAdd(p.nu, d), "10">>, <<"2", Det(p.psi)>> >>, << RMul(Half, RAdd(p.nu, "1")), p.nu >>)
MargNoise(g, sh) ==
    LET n == RSize(g.B) IN
    CASE m = "bb" -> Noise(f, <<>>, << sh.alpha, sh.beta, RAdd(sh.alpha, sh.beta), RAdd(sh.alpha, n), RAdd(sh.beta, n),
                                       RSum(<<sh.alpha, sh.beta, n>>) >>)
      [] m \in {"dd", "dpd"} ->
           LET a == IF m = "dd" THEN RSum(sh.alphas) ELSE sh.alpha
               lg(v) == RAdd(LgNoise(f, RAdd("1", RInt(IAbs(g.B[v])))), LgNoise(f, RMax("1e-9",
                               IF m = "dd" THEN sh.alphas[RToInt(v) + 1] ELSE RMul(a, DpdBeta(sh, v)))))
           IN  RAdd(Noise(f, <<>>, << a, RAdd(a, n) >>), SumSet(DOMAIN g.B, lg))
      [] m = "gp" -> LET p == Post("gp", sh, g.B) IN
           RAdd(LogProdNoise(f, g),
                Noise(f, << <<sh.alpha, sh.inv_beta>>, <<p.alpha, p.inv_beta>> >>, << sh.alpha, p.alpha >>))
      [] m = "bnb" -> LET p == Post("bnb", sh, g.B) IN
           Noise(f, <<>>, << p.alpha, p.beta, RAdd(p.alpha, p.beta), sh.alpha, sh.beta, RAdd(sh.alpha, sh.beta) >>)
      [] m = "nich" -> LET p == NichPost(sh, g.B) IN
           Noise(f, << <<"1", sh.kappa>>, <<"1", p.kappa>>, <<sh.nu, RMul(sh.nu, sh.sigmasq)>>,
                       <<p.nu, RMul(p.nu, p.sigmasq)>> >>, << RMul(Half, p.nu), RMul(Half, sh.nu) >>)
      [] m = "niw" -> LET p == NiwPost(sh, g.B)  d == RInt(NiwDim(sh))
                          lgs(x) == [i \in 1..NiwDim(sh) |-> RMax(Half, RMul(Half, x))] IN
           Noise(f, << <<sh.nu, Det(sh.psi)>>, <<p.nu, Det(p.psi)>>, <<RMul("2", d), p.kappa>> >>, lgs(p.nu) \o lgs(sh.nu))

\* the library scores bnb up to the parameter-free coefficient C(v+r-1, v)
\* (known finding bnb-coefficient); the exact law is accepted as well
PredOk(g, sh, v, got, extra) ==
    LET w == LnPred(m, sh, g.B, v)  a == RAdd(RAdd(PredNoise(g, sh, v), Carry(g, sh)), extra) IN
    \/ RClose(got, w, a, Eps(f))
    \/ m = "bnb" /\ RClose(got, RAdd(w, LnChoose(v, sh.r)), a, Eps(f))
MargBase(sh, B) == LET h(v) == RMul(RInt(B[v]), LnChoose(v, sh.r)) IN SumSet(DOMAIN B, h)
MargTol(g, sh) == RAdd(MargNoise(g, sh), Carry(g, sh))
MargOk(g, sh, got) ==
    LET w == LnMarg(m, sh, g.B)  a == MargTol(g, sh) IN
    \/ RClose(got, w, a, Eps(f))
    \/ m = "bnb" /\ RClose(got, RAdd(w, MargBase(sh, g.B)), a, Eps(f))

PostClose(p, r, g) ==
    LET s1 == RMul("4", Slack1(f, g))
        s2 == RMul("4", Slack2(f, g))
        near(a, b, t) == RClose(a, b, t, RMul("8", Eps(f)))
        mx == RMax("1", RMax(g.mag, "1"))
    IN CASE m \in {"gp", "bnb"} -> \A k \in DOMAIN p : near(r[k], p[k], "0")
         [] m = "nich" -> LET off == RAbs(RSub(shs[cur].sh.mu, MeanOf(g.B)))
                              far == RMul(RAdd(s1, RMul(Eps(f), RAbs(shs[cur].sh.mu))), RAdd(RMul("4", off), s1))
                          IN
                          /\ near(r.kappa, p.kappa, "0") /\ near(r.nu, p.nu, "0")
                          /\ near(r.mu, p.mu, s1) /\ RClose(r.sigmasq, p.sigmasq, RAdd(s2, far), RMul("100", Eps(f)))
         [] m = "niw" -> /\ near(r.kappa, p.kappa, "0") /\ near(r.nu, p.nu, "0")
                         /\ CloseSeq(r.mu, p.mu, RAdd(s1, RMul("100", Eps(f))))
                         /\ LET q == Square(r.psi) IN
                            /\ Len(q) = Len(p.psi)
                            /\ \A i \in 1..Len(q) : CloseSeq(q[i], p.psi[i], RAdd(RMul("8", s2), RMul("1000", Eps(f))))

---------------------------------------------------------------------------
Init == /\ l = 1 /\ m = "none" /\ f = "none"
        /\ shs = <<>> /\ cur = 0 /\ G = <<>> /\ X = <<>>

Session == /\ IsEvent("session")
           /\ m' = E.model /\ f' = E.f
           /\ shs' = [x \in {} |-> 0] /\ cur' = 0
           /\ G' = [x \in {} |-> 0] /\ X' = [x \in {} |-> 0]
Seed == IsEvent("seed") /\ UNCHANGED <<m, f, shs, cur, G, X>>
Sh == shs[cur].sh
Hyper(raw, ld) == [sh |-> Conv(raw), raw |-> raw, ld |-> ld, drift |-> "0"]
SharedEv == /\ \/ IsEvent("shared") \/ IsEvent("use")
            /\ cur' = E.s
            /\ shs' = IF E.e = "use" /\ E.s \in DOMAIN shs THEN shs ELSE Put(shs, E.s, Hyper(E.sh, FALSE))
            /\ UNCHANGED <<m, f, G, X>>

---------------------------------------------------------------------------
(* the Dirichlet-process stick.  `counts` are the outstanding references of *)
(* each known value, `betas` the weights, `beta0` what is left.             *)
HasB0 == "beta0" \in DOMAIN E.sh
MinBeta == IF Single(f) THEN "1e-6" ELSE "0"
Known(S) == DOMAIN S.betas
SameWeights(S, T, K) == \A v \in K : REq(S.betas[v], T.betas[v])
SameCounts(S, T, K) == \A v \in K : REq(S.counts[v], T.counts[v])
NearB0(got, want, scale) == ~HasB0 \/ RClose(got, want, RMul("4", RMul(Eps(f), scale)), "0")
\* weights are probabilities that sum to one, up to the clamping of tiny remainders
StickSum(S) == RAdd(S.beta0, RSum(S.betas))
WeightsOk(S, drift) ==
    /\ \A v \in Known(S) : (IF Single(f) THEN RLt("0", S.betas[v]) ELSE RLe("0", S.betas[v])) /\ RLe(S.betas[v], "1")
    /\ HasB0 => /\ RLe("0", S.beta0) /\ RLe(S.beta0, RAdd("1", IF Single(f) THEN "0" ELSE drift))
                /\ RClose(StickSum(S), "1", drift, "0")
    /\ RLe(RSum(S.betas), RAdd("1", drift))
    /\ \A v \in Known(S) : RLt("0", S.counts[v])
Touch(n) == RMul(RInt(n), RAdd(MinBeta, RMul("2", Eps(f))))
StickDrift(n) == RAdd(shs[cur].drift, Touch(n))
\* where the remainder is not shown (lp), what is known of it: all shared out, or not touched
Remains(S, T) == IF HasB0 THEN T
               ELSE IF E.e = "srealize" THEN [T EXCEPT !.beta0 = "0"]
               ELSE IF Known(S) = Known(T) THEN [T EXCEPT !.beta0 = S.beta0]
               ELSE [T EXCEPT !.beta0 = RMax(@, "1e-6")]
BecomeThat(S, T, n) ==
    /\ shs' = [shs EXCEPT ![cur] = [sh |-> T, raw |-> E.sh, ld |-> @.ld,
                  drift |-> IF shs[cur].drift = "0" THEN RAdd(Touch(n), RAbs(RSub("1", RAdd(S.beta0, RSum(S.betas)))))
                            ELSE StickDrift(n)]]
    /\ Judge({"C15"}, <<E.e, "weights">>, WeightsOk(T, RAdd(shs'[cur].drift, RMul("8", Eps(f)))), T,
             <<"probabilities that sum to one within", RShow(shs'[cur].drift)>>)
    /\ Judge({"C15"}, <<E.e, "parameters">>, REq(S.gamma, T.gamma) /\ REq(S.alpha, T.alpha), T, S)
Become(S, Shown, n) == \E T \in {Remains(S, Shown)} : BecomeThat(S, T, n)
SAdd == /\ IsEvent("sadd") /\ UNCHANGED <<m, f, cur, G, X>>
        /\ \E S \in {Sh}, T \in {Conv(E.sh)} : LET v == E.v IN
           /\ Judge({"C15"}, E, Known(T) = Known(S) \cup {v} /\ SameWeights(S, T, Known(S)) /\ SameCounts(S, T, Known(S) \ {v}),
                    T, <<"only the new value changes", S>>)
           /\ Judge({"C15"}, E,
                    IF v \in Known(S) THEN REq(T.counts[v], RAdd(S.counts[v], "1")) /\ NearB0(T.beta0, S.beta0, "0")
                    ELSE /\ REq(T.counts[v], "1")
                         /\ ~HasB0 \/ RLe(T.betas[v], RMul(S.beta0, RAdd("1", RMul("2", Eps(f)))))
                         /\ ~HasB0 \/ RLe(RMul(S.beta0, RMul(MinBeta, "0.9999")), T.betas[v])
                         /\ NearB0(T.beta0, RMax(MinBeta, RSub(S.beta0, T.betas[v])), S.beta0),
                    T, <<"a piece of the remainder", S>>)
           /\ Become(S, T, 1)
SRem == /\ IsEvent("srem") /\ UNCHANGED <<m, f, cur, G, X>>
        /\ E.v \in Known(Sh)
        /\ \E S \in {Sh}, T \in {Conv(E.sh)} :
           LET v == E.v
               last == REq(S.counts[v], "1") IN
           /\ Judge({"C15"}, E, /\ Known(T) = (IF last THEN Known(S) \ {v} ELSE Known(S))
                               /\ SameWeights(S, T, Known(T)) /\ SameCounts(S, T, Known(T) \ {v})
                               /\ ~last => REq(T.counts[v], RSub(S.counts[v], "1")),
                    T, <<"one reference less", S>>)
           /\ Judge({"C15"}, E,
                    IF ~last THEN NearB0(T.beta0, S.beta0, "0")
                    ELSE NearB0(T.beta0, LET b == RAdd(S.beta0, S.betas[v]) IN IF Single(f) THEN RMin("1", b) ELSE b, "1"),
                    T.beta0, <<"the weight returns to the remainder", S.beta0, S.betas[v]>>)
           /\ Become(S, T, 1)
RECURSIVE TopOf(_, _)
TopOf(s, k) == IF k = 0 THEN "-1" ELSE RMax(s[k], TopOf(s, k - 1))
Fresh(S, T) == Known(T) \ Known(S)
SRealize ==
    /\ IsEvent("srealize") /\ UNCHANGED <<m, f, cur, G, X>>
    /\ \E S \in {Sh}, T \in {Conv(E.sh)} : \E N \in {Fresh(S, T)} :
       LET n == Cardinality(N)
           top == TopOf(shs[cur].raw.values, Len(shs[cur].raw.values))
           last == RAdd(top, RInt(n)) IN
       /\ Judge({"C15"}, <<E.e, "kept">>, Known(S) \subseteq Known(T) /\ SameWeights(S, T, Known(S)) /\ SameCounts(S, T, Known(S)),
                T, <<"known values keep their weights", S>>)
       /\ Judge({"C15"}, <<E.e, "new keys">>, N = {RAdd(top, RInt(i)) : i \in 1..n} /\ \A v \in N : REq(T.counts[v], "1"),
                N, <<"consecutive keys above", top>>)
       /\ Judge({"C15"}, <<E.e, "all">>, REq(S.beta0, "0") => n = 0, n, "no value is left to add")
       /\ Judge({"C15"}, <<E.e, "done">>, RLe(RInt(Cardinality(Known(T))), RMax("10000", RAdd("1", RInt(Cardinality(Known(S))))))
                                       /\ (~HasB0 \/ REq(T.beta0, "0")), T.beta0, "nothing remains")
       /\ Judge({"C15"}, <<E.e, "stops in time">>,
                n = 0 \/ Cardinality(Known(T)) >= 10000 \/
                \* before the last value was added no more than min_beta0 and its own piece were left
                RLe(T.betas[last], RAdd("1e-4", RMul("4", Eps(f)))) \/ (n = 1 /\ RLe(S.beta0, "1.001e-4")),
                T.betas[last], "the last value takes what is below 1e-4")
       /\ Become(S, T, 2 + n \div 8)
SharedVal == SAdd \/ SRem \/ SRealize
\* a value that cannot be added is refused and nothing changes
SRefused == /\ IsEvent("srefused") /\ UNCHANGED <<m, f, shs, cur, G, X>>
            /\ Judge({"C15"}, E, \/ E.refused = (E.v = "4294967295" \/ (E.op = "sadd" /\ E.v \notin Known(Sh) /\ REq(Sh.beta0, "0")))
                                \/ (~HasB0 /\ RLt("0", Sh.beta0) /\ RLt(Sh.beta0, "1e-4")),
                     E.refused, Sh.beta0)
            /\ \E T \in {Conv(E.sh)} : Judge({"C15"}, E,
                     E.refused => /\ Known(T) = Known(Sh) /\ SameWeights(Sh, T, Known(T)) /\ SameCounts(Sh, T, Known(T))
                                  /\ NearB0(T.beta0, Sh.beta0, "0"), E.sh, "unchanged")
            /\ E.refused
\* the piece broken off for a new value, relative to what was left: Beta(1, gamma)
StickCdf(x, g) == IF RLe(x, "0") THEN "0" ELSE IF RLe("1", x) THEN "1"
                  ELSE RSub("1", RExp(RMul(g, RLn(RSub("1", x)))))
Pieces == /\ IsEvent("spieces") /\ UNCHANGED <<m, f, shs, cur, G, X>>
          /\ \A i \in 1..Len(E.th) :
               LET x == RSub(RMul(E.th[i], RAdd("1", MinBeta)), MinBeta)
                   p == StickCdf(x, Sh.gamma) IN
               Judge({"C15"}, <<E, i>>, CountOk(E.ks[i], E.n, p, IF Single(f) THEN "5e-5" ELSE "1e-9"),
                     E.ks[i], RShow(RMul(RInt(E.n), p)))

---------------------------------------------------------------------------
(* saving and loading hyperparameters: what is loaded is what was dumped    *)
SameSeq(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], "0", t)
SameRaw(a, b, t) ==
    LET num(k) == RClose(b[k], a[k], "0", t) IN
    CASE m = "dd" -> SameSeq(a.alphas, b.alphas, t)
      [] m = "niw" -> SameSeq(a.mu, b.mu, t) /\ SameSeq(a.psi, b.psi, t) /\ num("kappa") /\ num("nu")
      [] m = "dpd" -> LET S == Conv(a)  T == Conv(b) IN
            /\ num("gamma") /\ num("alpha") /\ Known(S) = Known(T) /\ SameCounts(S, T, Known(S))
            /\ \A v \in Known(S) : RClose(T.betas[v], S.betas[v], "0", t)
      [] OTHER -> \A k \in DOMAIN a : num(k)
SharedLoad ==
    /\ \/ IsEvent("spb") \/ IsEvent("sdict")
    /\ LET S == shs[E.s]
           \* protobuf messages hold single-precision numbers
           t == IF E.e = "spb" /\ ~Single(f) THEN "1e-7" ELSE "0" IN
       /\ Judge({"C19"}, E, SameRaw(S.raw, E.sh, t), E.sh, S.raw)
       /\ m = "dpd" /\ HasB0 =>
             Judge({"C19"}, E, RClose(E.sh.beta0, RMax("0", RSub("1", RSum(E.sh.betas))),
                                RAdd(RMul("4", Eps(f)), RMul("2e-7", RInt(Len(E.sh.betas)))), "0"), E.sh.beta0, "what the weights leave")
       /\ shs' = Put(shs, E.d, [Hyper(E.sh, TRUE) EXCEPT !.drift = S.drift])
    /\ UNCHANGED <<m, f, cur, G, X>>
SharedDump == /\ IsEvent("sdump") /\ UNCHANGED <<m, f, shs, cur, G, X>>
              /\ Judge({"C19", "C24"}, E, SameRaw(shs[cur].raw, E.sh, "0"), E.sh, shs[cur].raw)
\* observations made under hyperparameters that were loaded speak to C19
Via == IF shs[cur].ld THEN {"C19"} ELSE {}

New == IsEvent("new") /\ G' = Put(G, E.g, NewGroup) /\ UNCHANGED <<m, f, shs, cur, X>>
Add == IsEvent("add") /\ G' = [G EXCEPT ![E.g] = AddTo(@, E.v, 1)] /\ UNCHANGED <<m, f, shs, cur, X>>
Rep == IsEvent("rep") /\ G' = [G EXCEPT ![E.g] = AddTo(@, E.v, E.n)] /\ UNCHANGED <<m, f, shs, cur, X>>
Rem == /\ IsEvent("rem")
       /\ Count(G[E.g].B, E.v) > 0 \/ m \in {"bb", "dd", "dpd", "gp", "bnb"}      \* these groups support debt
       /\ G' = [G EXCEPT ![E.g] = AddTo(@, E.v, -1)] /\ UNCHANGED <<m, f, shs, cur, X>>
Merge == /\ IsEvent("merge") /\ E.g # E.h
         /\ G' = [G EXCEPT ![E.g] = MergeOf(@, G[E.h])] /\ UNCHANGED <<m, f, shs, cur, X>>
Copy == IsEvent("copy") /\ G' = Put(G, E.g, G[E.h]) /\ UNCHANGED <<m, f, shs, cur, X>>
RECURSIVE AddAll(_, _)
AddAll(g, vs) == IF vs = <<>> THEN g ELSE AddAll(AddTo(g, Head(vs), 1), Tail(vs))
FromVals == /\ IsEvent("fromvals") /\ G' = Put(G, E.g, AddAll(NewGroup, E.vs)) /\ UNCHANGED <<m, f, shs, cur, X>>
Load == /\ \/ IsEvent("gpb") \/ IsEvent("gdict")
        /\ G' = Put(G, E.g, [G[E.h] EXCEPT !.tags = @ \cup {"load"} \cup (IF E.e = "gpb" THEN {"f32"} ELSE {})])
        /\ UNCHANGED <<m, f, shs, cur, X>>

StatsEv == /\ IsEvent("stats") /\ UNCHANGED <<m, f, shs, cur, G, X>>
           /\ Judge(StatProps(G[E.g]) \cup Via, E, StatsOk(G[E.g], E.r, Sh), E.r, StatsWant(G[E.g], Sh))
ScoreData == /\ IsEvent("sd") /\ UNCHANGED <<m, f, shs, cur, G, X>>
             /\ Judge(MargProps(G[E.g]) \cup Via, E, MargOk(G[E.g], Sh, E.r), E.r, RShow(LnMarg(m, Sh, G[E.g].B)))
ScoreValue == /\ \/ IsEvent("sv") \/ IsEvent("svs")
              /\ UNCHANGED <<m, f, shs, cur, G, X>>
              /\ Judge(PredProps(G[E.g]) \cup Via, E, PredOk(G[E.g], Sh, E.v, E.r, "0"),
                       E.r, RShow(LnPred(m, Sh, G[E.g].B, E.v)))
PostEv == /\ IsEvent("post") /\ UNCHANGED <<m, f, shs, cur, G, X>>
          /\ Judge({"C07", "C21"} \cup Via, E, PostClose(Post(m, Sh, G[E.g].B), E.r, G[E.g]), E.r, Post(m, Sh, G[E.g].B))
Valid == /\ \/ IsEvent("val") \/ IsEvent("mval")
         /\ UNCHANGED <<m, f, shs, cur, G, X>>

---------------------------------------------------------------------------
(* samplers: counts of the values drawn.  A value is drawn from the         *)
(* predictive; two values from one prepared sampler follow the predictive   *)
(* and the predictive after the first.                                      *)
PredP(sh, B, v) ==
    CASE m = "bb" -> RDiv(RAdd(IF v = "1" THEN sh.alpha ELSE sh.beta, RInt(Count(B, v))),
                          RSum(<<sh.alpha, sh.beta, RSize(B)>>))
      [] m = "dd" -> RDiv(RAdd(sh.alphas[RToInt(v) + 1], RInt(Count(B, v))), RAdd(RSum(sh.alphas), RSize(B)))
      [] m = "dpd" -> RDiv(RAdd(RMul(sh.alpha, DpdBeta(sh, v)), RInt(Count(B, v))), RAdd(sh.alpha, RSize(B)))
      [] m = "gp" -> RExp(LnPred(m, sh, B, v))
      [] m = "bnb" -> RExp(RAdd(LnPred(m, sh, B, v), LnChoose(v, sh.r)))
Support(sh) ==
    CASE m = "bb" -> {"0", "1"}
      [] m = "dd" -> {RInt(i - 1) : i \in 1..Len(sh.alphas)}
      [] m = "dpd" -> DOMAIN sh.betas \cup (IF RLt("0", sh.beta0) THEN {"4294967295"} ELSE {})
      [] m \in {"gp", "bnb"} -> {RInt(i) : i \in 0..RToInt(E.top)}
Drawn(T(_, _)) == RSum([i \in {j \in 1..Len(E.vs) : T(E.vs[j], E.ws[j])} |-> RInt(E.ks[i])])
SampBag == IF E.how = "sgroup" THEN EmptyBag ELSE G[E.g].B
SampEps == IF Single(f) THEN "2e-6" ELSE "1e-9"
HistEv == /\ IsEvent("hist") /\ UNCHANGED <<m, f, shs, cur, G, X>>
          /\ LET S == Support(Sh)  B == SampBag
                 p == [v \in S |-> PredP(Sh, B, v)]
                 of(v) == LET t(a, b) == a = v IN RToInt(Drawn(t)) IN
             /\ Judge({"C18"}, E, \A i \in 1..Len(E.vs) : E.vs[i] \in S \cup {"T"}, E.vs, "values of the domain")
             /\ \A v \in S : Judge({"C18"}, <<E, v>>, CountOk(of(v), E.n, p[v], SampEps), of(v), RShow(RMul(RInt(E.n), p[v])))
             /\ LET q == RSub("1", RSum(p)) IN
                Judge({"C18"}, <<E, "T">>, CountOk(of("T"), E.n, RMax("0", RMin("1", q)), SampEps) , of("T"), RShow(RMul(RInt(E.n), q)))
PairEv == /\ IsEvent("pairs") /\ UNCHANGED <<m, f, shs, cur, G, X>>
          /\ LET S == Support(Sh)  B == SampBag
                 p == [v \in S |-> PredP(Sh, B, v)]
                 q == [v \in S |-> [w \in S |-> PredP(Sh, BagAdd(B, v, 1), w)]]
                 rest(v) == RMax("0", RSub("1", RSum(q[v])))
                 of(v, w) == LET t(a, b) == a = v /\ b = w IN RToInt(Drawn(t))
                 first == LET t(a, b) == a = "T" IN RToInt(Drawn(t))
                 near(k, x) == CountOk(k, E.n, RMax("0", RMin("1", x)), SampEps) IN
             /\ Judge({"C18"}, E, \A i \in 1..Len(E.vs) : {E.vs[i], E.ws[i]} \subseteq S \cup {"T"}, <<E.vs, E.ws>>, "values of the domain")
             /\ \A v \in S, w \in S :
                  LET x == RMul(p[v], q[v][w]) IN
                  Judge({"C18"}, <<E, v, w>>, near(of(v, w), x), of(v, w), RShow(RMul(RInt(E.n), x)))
             /\ \A v \in S :
                  LET x == RMul(p[v], rest(v)) IN
                  Judge({"C18"}, <<E, v, "T">>, near(of(v, "T"), x), of(v, "T"), RShow(RMul(RInt(E.n), x)))
             /\ LET x == RSub("1", RSum(p)) IN
                Judge({"C18"}, <<E, "T">>, near(first, x), first, RShow(RMul(RInt(E.n), x)))
(* normal models: draws are Student t around the posterior mean; the        *)
(* difference and the mean of two draws from one prepared sampler are too   *)
VDot(a, b) == RSum([i \in 1..Len(a) |-> RMul(a[i], b[i])])
SampLaw == LET B == SampBag IN
    CASE m = "nich" -> LET p == NichPost(Sh, B) IN [dof |-> p.nu, at |-> p.mu, s |-> p.sigmasq, kappa |-> p.kappa]
      [] m = "niw" -> LET p == NiwPost(Sh, B)  dof == RSub(p.nu, RInt(NiwDim(Sh) - 1)) IN
           [dof |-> dof, at |-> VDot(E.w, p.mu), kappa |-> p.kappa,
            s |-> RDiv(VDot(E.w, [i \in 1..Len(E.w) |-> VDot(p.psi[i], E.w)]), dof)]
CdfsEv == /\ IsEvent("cdfs") /\ UNCHANGED <<m, f, shs, cur, G, X>>
          /\ Judge({"C18"}, E, E.bad = 0, E.bad, "finite draws")
          /\ LET q == SampLaw
                 at == IF E.how = "diff" THEN "0" ELSE q.at
                 c == CASE E.how = "diff" -> "2"
                        [] E.how = "mean" -> RAdd("1/2", RDiv("1", q.kappa))
                        [] OTHER -> RAdd("1", RDiv("1", q.kappa)) IN
             \A i \in 1..Len(E.th) :
                LET p == StudentCdf(E.th[i], q.dof, at, RMul(c, q.s)) IN
                Judge({"C18"}, <<E, i>>, CountOk(E.ks[i], E.n, p, "1e-5"), E.ks[i], RShow(RMul(RInt(E.n), p)))

(* mixtures: packed vectors of groups *)
PackedRemove(s, i) ==      \* the last element takes the place of element i
    [k \in 1..(Len(s) - 1) |-> IF k = i THEN s[Len(s)] ELSE s[k]]
Idx(i) == i + 1
MNew == IsEvent("mnew") /\ X' = Put(X, E.x, <<>>) /\ UNCHANGED <<m, f, shs, cur, G>>
MPush == IsEvent("mpush") /\ X' = [X EXCEPT ![E.x] = Append(@, G[E.g])] /\ UNCHANGED <<m, f, shs, cur, G>>
MClear == IsEvent("mclear") /\ X' = [X EXCEPT ![E.x] = <<>>] /\ UNCHANGED <<m, f, shs, cur, G>>
MInit == IsEvent("minit") /\ UNCHANGED <<m, f, shs, cur, G, X>>
MAddGroup == IsEvent("maddg") /\ X' = [X EXCEPT ![E.x] = Append(@, NewGroup)] /\ UNCHANGED <<m, f, shs, cur, G>>
MRemGroup == /\ IsEvent("mremg") /\ Idx(E.i) \in DOMAIN X[E.x]
             /\ X' = [X EXCEPT ![E.x] = PackedRemove(@, Idx(E.i))] /\ UNCHANGED <<m, f, shs, cur, G>>
MAdd == /\ IsEvent("madd") /\ Idx(E.i) \in DOMAIN X[E.x]
        /\ X' = [X EXCEPT ![E.x][Idx(E.i)] = AddTo(@, E.v, 1)] /\ UNCHANGED <<m, f, shs, cur, G>>
MRem == /\ IsEvent("mrem") /\ Idx(E.i) \in DOMAIN X[E.x] /\ Count(X[E.x][Idx(E.i)].B, E.v) > 0
        /\ X' = [X EXCEPT ![E.x][Idx(E.i)] = AddTo(@, E.v, -1)] /\ UNCHANGED <<m, f, shs, cur, G>>
MScoreG == /\ IsEvent("msvg") /\ UNCHANGED <<m, f, shs, cur, G, X>>
           /\ LET g == X[E.x][Idx(E.i)] IN
              Judge({"C08", "C21"}, E, PredOk(g, Sh, E.v, E.r, "0"), E.r, RShow(LnPred(m, Sh, g.B, E.v)))
MScore == /\ IsEvent("msv") /\ UNCHANGED <<m, f, shs, cur, G, X>>
          /\ LET x == X[E.x] IN
             /\ Judge({"C08"}, E, Len(E.r) = Len(x), Len(E.r), Len(x))
             /\ \A i \in 1..Len(x) :
                  LET base == RAdd(E.b, RInt(i - 1)) IN
                  Judge({"C08", "C21"}, <<E, i>>,
                        RFin(E.r[i]) /\ PredOk(x[i], Sh, E.v, RSub(E.r[i], base),
                               RMul("4", RMul(Eps(f), RAdd("1", RAbs(base))))),
                        E.r[i], RShow(RAdd(base, LnPred(m, Sh, x[i].B, E.v))))
SumOver(x, F(_)) == RSum([i \in 1..Len(x) |-> F(x[i])])
MixMargOk(x, sh, got) ==
    LET w(g) == LnMarg(m, sh, g.B)
        t(g) == RAdd(MargTol(g, sh), RMul(Eps(f), RMul(RInt(Len(x) + 4), RAbs(w(g)))))
        c(g) == MargBase(sh, g.B)
        want == SumOver(x, w)
        a == RAdd(Floor(f), SumOver(x, t))
    IN  \/ RClose(got, want, a, Eps(f))
        \/ m = "bnb" /\ RClose(got, RAdd(want, SumOver(x, c)), a, Eps(f))
MixMarg(x, sh) == LET w(g) == LnMarg(m, sh, g.B) IN SumOver(x, w)
MData == /\ IsEvent("msd") /\ UNCHANGED <<m, f, shs, cur, G, X>>
         /\ Judge({"C09", "C21"}, E, MixMargOk(X[E.x], Sh, E.r), E.r, RShow(MixMarg(X[E.x], Sh)))
MGrid == /\ IsEvent("mgrid") /\ UNCHANGED <<m, f, shs, cur, G, X>>
         /\ Judge({"C09"}, E, Len(E.r) = Len(E.ss), Len(E.r), Len(E.ss))
         /\ \A i \in 1..Len(E.ss) :
              Judge({"C09"}, <<E, i>>, MixMargOk(X[E.x], shs[E.ss[i]].sh, E.r[i]),
                    E.r[i], RShow(MixMarg(X[E.x], shs[E.ss[i]].sh)))
(* the multivariate t density itself, apart from any posterior:            *)
(* |sigma + z z' / dof| = |sigma| (1 + z' sigma^-1 z / dof)                *)
MvT == /\ IsEvent("mvt") /\ UNCHANGED <<m, f, shs, cur, G, X>>
       /\ \E sg \in {Square(E.sigma)} : \E z \in {VAdd(E.v, VScale("-1", E.mu))} :
          \E a \in {Det(sg)} : \E b \in {Det(MatAdd(sg, MatScale(RDiv("1", E.dof), Outer(z, z))))} :
          LET d == RInt(Len(z))
              top == RMul(Half, RAdd(E.dof, d))
              want == RSum(<< RLnGamma(top), RNeg(RLnGamma(RMul(Half, E.dof))),
                              RNeg(RMul(RMul(Half, d), RAdd(LnPi, RLn(E.dof)))), RNeg(RMul(Half, RLn(a))),
                              RNeg(RMul(top, RLn(RDiv(b, a)))) >>)
              tol == RAdd(Noise(f, << <<Half, a>>, <<RMul(Half, d), E.dof>>, <<top, RDiv(b, a)>> >>, << top, RMul(Half, E.dof) >>),
                          RMul(RAdd(E.dof, d), IF Single(f) THEN "2e-5" ELSE "1e-12"))
          IN  Judge({"C05"}, E, RClose(E.r, want, tol, Eps(f)), E.r, RShow(want))
MLen == /\ IsEvent("mlen") /\ UNCHANGED <<m, f, shs, cur, G, X>>
        /\ Judge({"C08"}, E, E.r = Len(X[E.x]), E.r, Len(X[E.x]))
MStats == /\ IsEvent("mstats") /\ UNCHANGED <<m, f, shs, cur, G, X>>
          /\ LET g == X[E.x][Idx(E.i)] IN
             Judge({"C08"} \cup StatProps(g), E, StatsOk(g, E.r, Sh), E.r, StatsWant(g, Sh))

Next == \/ Session \/ Seed \/ SharedEv \/ SharedVal \/ SRefused \/ Pieces \/ SharedLoad \/ SharedDump
        \/ New \/ Add \/ Rep \/ Rem \/ Merge \/ Copy \/ Load \/ FromVals
        \/ StatsEv \/ ScoreData \/ ScoreValue \/ PostEv \/ Valid
        \/ MNew \/ MPush \/ MClear \/ MInit \/ MAddGroup \/ MRemGroup \/ MAdd \/ MRem
        \/ HistEv \/ PairEv \/ CdfsEv
        \/ MScoreG \/ MScore \/ MData \/ MGrid \/ MLen \/ MStats \/ MvT

Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
