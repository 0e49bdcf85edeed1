--------------------------- MODULE TraceClustering ---------------------------
(***************************************************************************)
(* Trace validation of the clustering priors, the mixture drivers, the     *)
(* id tracker and driver + component mixtures + tracker used together.     *)
(* State: the abstract packed partition of Clustering.tla.                 *)
(***************************************************************************)
EXTENDS Clustering, TLC, Json, IOUtils, SequencesExt

CONSTANTS Props

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ses, mp, P, next, ready
vars == <<l, ses, mp, P, next, ready>>
\* ses: the session line; mp: parameters of the clustering model; ready: P is in use

E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Judge(ps, what, ok, got, want) ==
    IF ps \cap Props = {} THEN TRUE
    ELSE IF ok THEN TRUE
    ELSE PrintT(<<"REJECT", l, ps \cap Props, what, got, want>>) /\ FALSE
Has(r, k) == k \in DOMAIN r
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
RInts(s) == [i \in 1..Len(s) |-> RInt(s[i])]
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x

---------------------------------------------------------------------------
(* rounding: "cc" and "lp" are single precision with fast_log (6.1e-5) and *)
(* fast_lgamma (5e-5 + 1e-6 relative); "dbg" is double precision           *)
Single == ses.f \in {"cc", "lp"}
LogN(x) == IF Single THEN RAdd("7e-5", RMul("4e-7", RAbs(RLn(x)))) ELSE RMul("1e-13", RAdd("1", RAbs(RLn(x))))
LgN(x) == IF Single THEN RAdd("7e-5", RMul("2e-6", RAbs(RLnGamma(x)))) ELSE RMul("1e-12", RAdd("1", RAbs(RLnGamma(x))))
Base == IF Single THEN "2e-6" ELSE "1e-12"
Rel == IF Single THEN "1e-6" ELSE "1e-12"

PYAddTol(c, k, n, e) == RSum(<<Base, LogN(RAdd(mp.alpha, RInt(n))), LogN(PYSeat(mp.alpha, mp.d, c, k, n, e)),
                               LogN(RMax("1e-6", RSub(RInt(IF c = 0 THEN 1 ELSE c), mp.d)))>>)
PYCountsTol(cs) ==
    LET b == NonZero(cs)
        before(i) == SumSeq([j \in 1..(i - 1) |-> b[j]])
        n0(i) == RAdd(mp.alpha, RInt(before(i)))
        one == RSub("1", mp.d)
        \* for counts of 1 and 2 too: whether they are special-cased is the code's business
        t(i) == RSum(<<LogN(RAdd(mp.alpha, RInt(i))), LgN(RAdd(one, RInt(b[i] - 1))), LgN(one),
                       LgN(n0(i)), LgN(RAdd(n0(i), RInt(b[i])))>>)
    IN  RAdd(Base, RSum([i \in 1..Len(b) |-> t(i)]))

LEAddTol(N, c, n, e) ==
    IF c = 0 THEN RSum(<<Base, LogN(RInt(e)), LogN(RDiv(RInt(N), RInt(n + 1)))>>)
    ELSE IF c > 10000 THEN RAdd(Base, LogN(RInt(c)))
    ELSE RAdd(RAdd(Base, LogN(RInt(c + 1))), RMul(RInt(c), IF Single THEN "7e-5" ELSE "1e-14"))
LECountsTol(N, cs) ==
    LET b == NonZero(cs)
        n == SumSeq(b)
        big == IF n = 0 THEN "0" ELSE RMul(RInt(n), LogN(RInt(n)))
        q == RAdd("1", RAdd(RLn(RInt(IF n = 0 THEN 1 ELSE n)), RLn(RInt(N + 1))))
    IN  RSum(<<IF Single THEN "1e-5" ELSE "1e-7", RMul("2", big),
               IF n = 0 THEN "0" ELSE RMul(RInt(Len(b)), LogN(RDiv(RInt(N), RInt(n)))),
               IF Single THEN RMul("1e-5", RMul(q, q)) ELSE "0">>)

AddLaw(c, k, n, e) == IF mp.kind = "py" THEN PYAdd(mp.alpha, mp.d, c, k, n, e) ELSE LEAdd(mp.N, c, k, n, e)
AddTol(c, k, n, e) == IF mp.kind = "py" THEN PYAddTol(c, k, n, e) ELSE LEAddTol(mp.N, c, n, e)
RemLaw(c, k, n, e) == IF mp.kind = "py" THEN PYRem(mp.alpha, mp.d, c, k, n, e) ELSE LERem(mp.N, c, k, n, e)
RemTol(c, k, n, e) == AddTol(c - 1, IF c = 1 THEN k - 1 ELSE k, n - 1, e)
CountsLaw(cs) == IF mp.kind = "py" THEN PYCounts(mp.alpha, mp.d, cs) ELSE LECounts(mp.N, cs)
CountsTol(cs) == IF mp.kind = "py" THEN PYCountsTol(cs) ELSE LECountsTol(mp.N, cs)
Law == IF mp.kind = "py" THEN {"C12"} ELSE {"C13"}
CanScoreAdd(n, e) == mp.kind = "py" \/ CanLEAdd(mp.N, n, e)
CanCounts(cs) == mp.kind = "py" \/ SumSeq(cs) <= mp.N

---------------------------------------------------------------------------
(* what the state looks like from outside                                  *)
Pos0(S) == {i - 1 : i \in S}
Seq2Set(s) == {s[i] : i \in 1..Len(s)}
ObsOk(r, Q) ==
    /\ Has(r, "cs") => r.cs = Sizes(Q)
    /\ Has(r, "em") => Seq2Set(r.em) = Pos0(EmptyPos(Q)) /\ Len(r.em) = Cardinality(EmptyPos(Q))
    /\ Has(r, "ss") => r.ss = SampleSize(Q)
    /\ Has(r, "len") => r.len = Len(Q)
JudgeObs(Q) == Judge({"C10"}, E, ObsOk(E, Q), E, [cs |-> Sizes(Q), em |-> Pos0(EmptyPos(Q)), ss |-> SampleSize(Q)])

\* component groups: counts per value (dd), <<count, sum>> (gp)
CountOf(b, v) == IF v \in DOMAIN b THEN b[v] ELSE 0
BagSize(b) == RToInt(RSum([v \in DOMAIN b |-> RInt(b[v])]))
BagSum(b) == RToInt(RSum([v \in DOMAIN b |-> RMul(RInt(b[v]), v)]))
CompOk(r, Q) ==
    /\ Len(r) = Len(Q)
    /\ \A i \in 1..Len(Q) :
         IF ses.model = "dd" THEN \A v \in 1..Len(r[i]) : r[i][v] = CountOf(Q[i].bag, RInt(v - 1))
         ELSE r[i][1] = BagSize(Q[i].bag) /\ r[i][2] = BagSum(Q[i].bag)
IdsOk(Q, nx) ==
    /\ Has(E, "ids") => E.ids = Gids(Q)
    /\ Has(E, "back") => E.back = [i \in 1..Len(Q) |-> i - 1]
    /\ Has(E, "ps") => E.ps = Len(Q)
    /\ Has(E, "gs") => E.gs = nx
JudgeIds(Q, nx) == Judge({"C11"}, E, IdsOk(Q, nx), E, [ids |-> Gids(Q), global_size |-> nx])
JudgeComp(Q) ==
    /\ Has(E, "small") => Judge({"C11"}, E, CompOk(E.small, Q), E.small, Q)
    /\ Has(E, "fast") => Judge({"C11"}, E, CompOk(E.fast, Q), E.fast, Q)
JudgeAll(Q, nx) == JudgeObs(Q) /\ JudgeIds(Q, nx) /\ JudgeComp(Q)

---------------------------------------------------------------------------
Init == l = 1 /\ ses = [f |-> "none"] /\ mp = [kind |-> "none"] /\ P = <<>> /\ next = 0 /\ ready = FALSE

Session == /\ IsEvent("session") /\ ses' = E
           /\ mp' = [kind |-> "none"] /\ P' = <<>> /\ next' = 0 /\ ready' = FALSE
ModelEv == /\ IsEvent("model")
           /\ mp' = IF E.kind = "py" THEN [kind |-> "py", alpha |-> E.alpha, d |-> E.d]
                    ELSE [kind |-> "le", N |-> E.N]
           /\ UNCHANGED <<ses, P, next, ready>>
InitEv == /\ IsEvent("init")
          /\ Judge({"C10"}, E, CanInit(E.a), E, "an init without empty groups is refused")
          /\ P' = InitPacked(E.a) /\ next' = Len(E.a) /\ ready' = TRUE
          /\ JudgeAll(P', next')
          /\ UNCHANGED <<ses, mp>>
\* a value joins: `v` is there when component mixtures take part
WithVal(Q, pos, n) == IF Has(E, "v") THEN [Q EXCEPT ![pos].bag = BagPut(@, E.v, n)] ELSE Q
AddEv == /\ IsEvent("add") /\ ready
         /\ Judge({"C10"}, E, CanAdd(P, E.g + 1, E.n), E, "refused")
         /\ P' = AfterAdd(WithVal(P, E.g + 1, E.n), next, E.g + 1, E.n)
         /\ next' = NextAfterAdd(P, next, E.g + 1)
         /\ Judge({"C10"}, E, E.flag = (IF AddFlag(P, E.g + 1) THEN 1 ELSE 0), E.flag, AddFlag(P, E.g + 1))
         /\ JudgeAll(P', next')
         /\ UNCHANGED <<ses, mp, ready>>
RemEv == /\ IsEvent("rem") /\ ready
         /\ Judge({"C10"}, E, CanRem(P, E.g + 1, E.n), E, "refused")
         /\ P' = AfterRem(WithVal(P, E.g + 1, -E.n), E.g + 1, E.n)
         /\ Judge({"C10"}, E, E.flag = (IF RemFlag(P, E.g + 1, E.n) THEN 1 ELSE 0), E.flag, RemFlag(P, E.g + 1, E.n))
         /\ JudgeAll(P', next)
         /\ UNCHANGED <<ses, mp, next, ready>>
ObsEv == IsEvent("obs") /\ ready /\ JudgeAll(P, next) /\ UNCHANGED <<ses, mp, P, next, ready>>

(* the id tracker on its own: E.g positions *)
TInit == /\ IsEvent("tinit") /\ P' = InitPacked([i \in 1..E.n |-> 0]) /\ next' = E.n /\ ready' = TRUE
         /\ JudgeIds(P', next') /\ UNCHANGED <<ses, mp>>
TAdd == /\ IsEvent("tadd") /\ P' = Append(P, Fresh(next, 0)) /\ next' = next + 1
        /\ JudgeIds(P', next') /\ UNCHANGED <<ses, mp, ready>>
TRem == /\ IsEvent("trem")
        /\ Judge({"C11"}, E, E.g + 1 \in 1..Len(P), E, "a bad position is refused")
        /\ P' = PackedRemove(P, E.g + 1) /\ JudgeIds(P', next) /\ UNCHANGED <<ses, mp, next, ready>>
P2G == /\ IsEvent("p2g")
       /\ Judge({"C11"}, E, E.g + 1 \in 1..Len(P) /\ E.r = P[E.g + 1].gid, E.r, Gids(P))
       /\ UNCHANGED <<ses, mp, P, next, ready>>
G2P == /\ IsEvent("g2p")
       /\ Judge({"C11"}, E, E.r + 1 \in 1..Len(P) /\ P[E.r + 1].gid = E.g, E.r, Gids(P))
       /\ UNCHANGED <<ses, mp, P, next, ready>>

\* a tracker of very many groups: the positions whose id is not the position's own number are few
TBigId(B, q) == IF q \in DOMAIN B.over THEN B.over[q] ELSE q
TBigAdd(B) == [len |-> B.len + 1, next |-> B.next + 1,
               over |-> IF B.len = B.next THEN B.over ELSE (B.len :> B.next) @@ B.over]
TBigRem(B, q) ==
    LET last == B.len - 1
        moved == (q :> TBigId(B, last)) @@ B.over
    IN  [len |-> last, next |-> B.next, over |-> [x \in DOMAIN moved \ {last} |-> moved[x]]]
RECURSIVE TBigAfter(_, _, _)
TBigAfter(n, steps, i) ==
    IF i = 1 THEN [len |-> n, next |-> n, over |-> [x \in {} |-> 0]]
    ELSE LET B == TBigAfter(n, steps, i - 1) IN
         IF steps[i].op = "add" THEN TBigAdd(B) ELSE TBigRem(B, steps[i].g)
\* runs: <<first position, first id, length>>
TRunsOk(B, runs) ==
    /\ B.len = IF runs = <<>> THEN 0 ELSE runs[Len(runs)][1] + runs[Len(runs)][3]
    /\ \A j \in 1..Len(runs) :
         LET p == runs[j][1]  a == runs[j][2]  n == runs[j][3]
             in == {q \in DOMAIN B.over : q >= p /\ q < p + n}
         IN  /\ p = IF j = 1 THEN 0 ELSE runs[j - 1][1] + runs[j - 1][3]
             /\ \A q \in in : B.over[q] = a + (q - p)
             /\ Cardinality(in) < n => a = p
TBig == /\ IsEvent("tbig")
        /\ \A i \in 1..Len(E.steps) :
             \E B \in {TBigAfter(E.n, E.steps, i)} :
               LET s == E.steps[i] IN
               /\ Judge({"C11"}, <<"ids", s>>, TRunsOk(B, s.ids), s, B)
               /\ Judge({"C11"}, <<"positions of ids", s>>, s.back = (IF B.len = 0 THEN <<>> ELSE << <<0, 0, B.len>> >>), s.back, B.len)
               /\ Judge({"C11"}, <<"sizes", s>>, s.ps = B.len /\ s.gs = B.next, s, B)
        /\ UNCHANGED <<ses, mp, P, next, ready>>

(* scores of the mixture *)
ScoreVec == /\ IsEvent("sv") /\ ready
            /\ LET e == Cardinality(EmptyPos(P))
                   k == Len(P) - e
                   n == SampleSize(P)
                   law == [c \in {P[i].n : i \in 1..Len(P)} |-> <<AddLaw(c, k, n, e), AddTol(c, k, n, e)>>]
               IN  /\ Judge(Law, E, Len(E.r) = Len(P), Len(E.r), Len(P))
                   /\ \A i \in 1..Len(P) :
                        Judge(Law, <<"position", i - 1, "size", P[i].n, "nonempty", k, "n", n, "empty", e, mp>>,
                              RClose(E.r[i], law[P[i].n][1], law[P[i].n][2], Rel), E.r[i], RShow(law[P[i].n][1]))
            /\ UNCHANGED <<ses, mp, P, next, ready>>
ScoreData == /\ IsEvent("sd") /\ ready
             /\ Judge(Law, <<E, mp, Sizes(P)>>, RClose(E.r, CountsLaw(Sizes(P)), CountsTol(Sizes(P)), Rel),
                      E.r, RShow(CountsLaw(Sizes(P))))
             /\ UNCHANGED <<ses, mp, P, next, ready>>

(* scores of the model *)
PureAdd == /\ IsEvent("sa")
           /\ Judge(Law, <<E, mp>>, RClose(E.r, AddLaw(E.c, E.k, E.n, E.m), AddTol(E.c, E.k, E.n, E.m), Rel),
                    E.r, RShow(AddLaw(E.c, E.k, E.n, E.m)))
           /\ UNCHANGED <<ses, mp, P, next, ready>>
PureRem == /\ IsEvent("sr")
           /\ Judge(Law, <<E, mp>>, RClose(E.r, RemLaw(E.c, E.k, E.n, E.m), RemTol(E.c, E.k, E.n, E.m), Rel),
                    E.r, RShow(RemLaw(E.c, E.k, E.n, E.m)))
           /\ UNCHANGED <<ses, mp, P, next, ready>>
PureCounts == /\ IsEvent("sc")
              /\ Judge(Law, <<E, mp>>, CanCounts(E.cs), E, "refused")
              /\ Judge(Law, <<E, mp>>, RClose(E.r, CountsLaw(E.cs), CountsTol(E.cs), Rel), E.r, RShow(CountsLaw(E.cs)))
              /\ UNCHANGED <<ses, mp, P, next, ready>>
\* partitions of many groups
RunsLaw(R) == IF mp.kind = "py" THEN PYRuns(mp.alpha, mp.d, R) ELSE LERuns(mp.N, R)
\* one rounding of the running sum per group
Running(R) == LET n == RAdd(IF mp.kind = "py" THEN mp.alpha ELSE "0", RInt(RunSize(R) + 2)) IN
              RMul(RMul(RInt(RunGroups(R)), IF Single THEN "1.2e-7" ELSE "2.3e-16"), RMul(n, RAdd("1", RLn(n))))
RunsTol(R) == RAdd(Running(R), \* and one of every function value
    IF mp.kind = "py"
    THEN LET n == RAdd(RAdd(mp.alpha, RInt(RunSize(R))), "2")
             one == RSub("1", mp.d)
             per(c) == IF c = 0 THEN "0"
                       ELSE IF c <= 2 THEN RMul("4", LogN(RMul(n, n)))
                       ELSE RSum(<<LogN(n), LgN(RAdd(one, RInt(c - 1))), LgN(one), RMul("2", LgN(n))>>)
         IN  RAdd(Base, RSum([i \in 1..Len(R) |-> RMul(RInt(R[i][2]), per(R[i][1]))]))
    ELSE LET n == IF RunSize(R) = 0 THEN 1 ELSE RunSize(R) IN
         RSum(<<"1e-5", RMul("3", RMul(RInt(n), LogN(RInt(n)))),
                RMul(RInt(RunGroups(R)), LogN(RDiv(RInt(mp.N), RInt(n)))),
                RMul("1e-5", RMul(RAdd("1", RLn(RInt(n))), RLn(RInt(mp.N + 1))))>>))
CanRuns(R) == mp.kind = "py" \/ RunSize(R) <= mp.N
PureRuns == /\ IsEvent("scr")
            /\ Judge(Law, <<E, mp>>, CanRuns(E.runs), E, "refused")
            /\ Judge(Law, <<E, mp>>, RClose(E.r, RunsLaw(E.runs), RunsTol(E.runs), "2e-6"), E.r, RShow(RunsLaw(E.runs)))
            /\ UNCHANGED <<ses, mp, P, next, ready>>
\* a mixture with that many groups: counts, empty groups, scores after every step
RECURSIVE RunsAfter(_, _, _)
RunsAfter(R, steps, i) ==
    IF i = 1 THEN Squeeze(R)
    ELSE LET Q == RunsAfter(R, steps, i - 1)  s == steps[i] IN
         IF s.op = "add" THEN RunAdd(Q, s.g, s.n) ELSE RunRem(Q, s.g, s.n)
StepOk(R, s) ==
    LET seen == [j \in 1..Len(s.at) |-> <<s.at[j][1], s.at[j][2]>>]
        e == RunEmpty(R)
        k == RunGroups(R) - e
        n == RunSize(R)
    IN  /\ Judge({"C10"}, <<"counts", mp, s.op>>, Squeeze(seen) = R, s, R)
        /\ Judge({"C10"}, <<"sample size", mp, s.op>>, s.ss = n, s.ss, n)
        /\ Judge({"C10"}, <<"empty groups", mp, s.op>>, s.stray = 0 /\ \A j \in 1..Len(s.at) : (s.at[j][3] = 1) = (s.at[j][1] = 0), s, R)
        /\ \A j \in 1..Len(s.at) :
             LET c == s.at[j][1] IN
             Judge(Law, <<"score of a group of", c, mp, R>>,
                   IF mp.kind = "le" /\ ~CanLEAdd(mp.N, n, e) THEN TRUE
                   ELSE RClose(s.at[j][4], AddLaw(c, k, n, e), AddTol(c, k, n, e), Rel), s.at[j][4], RShow(AddLaw(c, k, n, e)))
        /\ Judge(Law, <<"data score", mp, R>>, RClose(s.sd, RunsLaw(R), RunsTol(R), "2e-6"), s.sd, RShow(RunsLaw(R)))
Big == /\ IsEvent("big")
       /\ \A i \in 1..Len(E.steps) :
            LET s == E.steps[i] IN
            /\ IF i = 1 THEN TRUE
               ELSE LET Q == RunsAfter(E.runs, E.steps, i - 1) IN
                    Judge({"C10"}, <<"flag", s>>, (s.flag = 1) = RunFlag(Q, s.op, s.g, s.n), s.flag, Q)
            /\ \E R \in {RunsAfter(E.runs, E.steps, i)} : StepOk(R, s)
       /\ UNCHANGED <<ses, mp, P, next, ready>>
PureZ == /\ IsEvent("z")
         /\ Judge({"C13"}, <<E, mp>>, RClose(E.r, LELnZ(E.n), "2e-6", IF E.n < 48 THEN "2e-7" ELSE IF Single THEN "3e-5" ELSE "1e-12"),
                  E.r, RShow(LELnZ(E.n)))
         /\ UNCHANGED <<ses, mp, P, next, ready>>

(* sampled assignments *)
Weights(sz) == IF mp.kind = "py" THEN PYWeights(mp.alpha, mp.d, sz) ELSE LEWeights(mp.N, sz)
SampTol(sz) == IF Single THEN (IF mp.kind = "py" THEN "1e-5" ELSE RAdd("4e-4", RMul("8e-5", RInt(MaxSet({0} \cup Seq2Set(sz))))))
               ELSE "1e-9"
Bump(sz, a) == IF a = Len(sz) THEN Append(sz, 1) ELSE [sz EXCEPT ![a + 1] = @ + 1]
\* outcome a is the one the random number u selects (either side on a boundary)
Selects(w, u, a, tol) ==
    LET tot == RSum(w)
        lo == RSum([i \in 1..a |-> w[i]])
        hi == RAdd(lo, w[a + 1])
        t == RMul(u, tot)
        slack == RMul(tol, tot)
    IN  RLe(RSub(lo, slack), t) /\ RLe(t, RAdd(hi, slack))
RECURSIVE Follows(_, _, _, _, _)
Follows(ids, us, i, j, sz) ==       \* i: next item, j: next random number
    IF i > Len(ids) THEN TRUE
    ELSE LET a == ids[i] IN
         /\ a \in 0..Len(sz)
         /\ \/ /\ j <= Len(us)
               /\ LET w == Weights(sz) IN Selects(w, us[j], a, SampTol(sz))
               /\ Follows(ids, us, i + 1, j + 1, Bump(sz, a))
            \/ /\ sz = <<>>                      \* only one outcome: no random number is needed
               /\ Follows(ids, us, i + 1, j, Bump(sz, a))
RECURSIVE Contiguous(_, _)
Contiguous(ids, k) == IF ids = <<>> THEN TRUE
                      ELSE ids[1] \in 0..k /\ Contiguous(Tail(ids), IF ids[1] = k THEN k + 1 ELSE k)
Sampled == /\ IsEvent("asg")
           /\ Judge({"C14"}, E, mp.kind = "py" \/ E.size <= mp.N, E, "refused")
           /\ Judge({"C14"}, E, Len(E.ids) = E.size, Len(E.ids), E.size)
           /\ Judge({"C14"}, E, Contiguous(E.ids, 0), E.ids, "ids numbered by first appearance")
           /\ Has(E, "us") => Judge({"C14"}, <<E, mp>>, Follows(E.ids, E.us, 1, 1, <<>>), E.ids, "the seating law")
           /\ UNCHANGED <<ses, mp, P, next, ready>>
\* a long assignment: the shape of all of it, the seating law at some of its items
NumberedByAppearance(ids) == FoldLeft(LAMBDA k, a : IF k < 0 \/ a < 0 \/ a > k THEN -1 ELSE IF a = k THEN k + 1 ELSE k, 0, ids) >= 0
SizesBefore(ids, i) == FoldLeft(Bump, <<>>, SubSeq(ids, 1, i - 1))
LongSampled ==
    /\ IsEvent("asgl")
    /\ Judge({"C14"}, E.size, Len(E.ids) = E.size, Len(E.ids), E.size)
    /\ Judge({"C14"}, <<"numbered by first appearance", mp>>, NumberedByAppearance(E.ids), E.size, mp)
    /\ Judge({"C14"}, <<"the seating law of a long assignment", mp>>,
             \E off \in {0, 1} : \A q \in 1..Len(E.at) :
                LET i == E.at[q] IN
                i <= Len(E.ids) /\ i - off >= 1 =>
                \E sz \in {SizesBefore(E.ids, i)} :
                   Selects(Weights(sz), E.us[i - off], E.ids[i], RAdd(SampTol(sz), RMul("1e-7", RInt(i)))),
             E.size, mp)
    /\ UNCHANGED <<ses, mp, P, next, ready>>
\* frequencies of all partitions of a small size, against the exact law
RECURSIVE Vectors(_)
Vectors(s) == IF s = 0 THEN {<<>>}
              ELSE UNION {{Append(v, a) : a \in 0..MaxSet({0} \cup {v[i] + 1 : i \in 1..Len(v)})} : v \in Vectors(s - 1)}
RECURSIVE VecProb(_, _)
VecProb(v, sz) == IF v = <<>> THEN "1"
                  ELSE LET w == Weights(sz)
                       IN  RMul(RDiv(w[v[1] + 1], RSum(w)), VecProb(Tail(v), Bump(sz, v[1])))
Freq == /\ IsEvent("asgfreq")
        /\ LET seen == [v \in {E.vs[i] : i \in 1..Len(E.vs)} |-> E.ns[CHOOSE i \in 1..Len(E.vs) : E.vs[i] = v]] IN
           /\ Judge({"C14"}, E, DOMAIN seen \subseteq Vectors(E.size), E, "valid assignment vectors")
           /\ \A v \in Vectors(E.size) :
                LET p == VecProb(v, <<>>)
                    got == IF v \in DOMAIN seen THEN seen[v] ELSE 0
                    mean == RMul(RInt(E.n), p)
                    sd == RSqrt(RMul(mean, RSub("1", p)))
                IN  Judge({"C14"}, <<v, mp>>, RClose(RInt(got), mean, RAdd("4", RMul("6", sd)), "0.002"), got, RShow(mean))
        /\ UNCHANGED <<ses, mp, P, next, ready>>
CountsOf(g) == IF g = <<>> THEN <<>> ELSE [k \in 1..(MaxSet(Seq2Set(g)) + 1) |-> Cardinality({i \in 1..Len(g) : g[i] = k - 1})]
CountEv == /\ IsEvent("cnt")
           /\ Judge({"C14"}, E, E.r = CountsOf(E.gids), E.r, CountsOf(E.gids))
           /\ UNCHANGED <<ses, mp, P, next, ready>>

(* saving and loading the model *)
Reload == /\ \/ IsEvent("mdict") \/ IsEvent("mpb")
          /\ Judge({"C19"}, <<E, mp>>,
                   IF mp.kind = "py" THEN E.kind = "py" /\ REq(E.alpha, mp.alpha) /\ REq(E.d, mp.d)
                   ELSE E.kind = "le" /\ E.N = mp.N, E, mp)
          /\ UNCHANGED <<ses, mp, P, next, ready>>

(* a refused call: its precondition must be false, and nothing changes      *)
Arg(i) == RToInt(E.a[i])
Ints(s) == [i \in 1..Len(s) |-> RToInt(s[i])]
Refusable ==
    CASE E.op = "init" -> ~CanInit(Ints(E.a))
      [] E.op = "add" -> ~CanAdd(P, Arg(1) + 1, Arg(2))
      [] E.op = "rem" -> ~CanRem(P, Arg(1) + 1, Arg(2))
      [] E.op = "trem" -> Arg(1) + 1 \notin 1..Len(P)
      [] E.op = "p2g" -> Arg(1) + 1 \notin 1..Len(P)
      [] E.op = "g2p" -> Arg(1) \notin Seq2Set(Gids(P))
      [] E.op = "sa" -> ~CanScoreAdd(Arg(3), Arg(4)) \/ (mp.kind = "le" /\ Arg(2) > Arg(3))
      [] E.op = "sr" -> ~CanScoreAdd(Arg(3) - 1, Arg(4)) \/ Arg(3) <= 0
      [] E.op = "sv" -> ~CanScoreAdd(SampleSize(P), Cardinality(EmptyPos(P)))
      [] E.op = "sc" -> ~CanCounts(Ints(E.a))
      [] E.op = "asg" -> mp.kind = "le" /\ Arg(1) > mp.N
      [] E.op = "cnt" -> \E k \in 1..Len(CountsOf(Ints(E.a))) : CountsOf(Ints(E.a))[k] = 0
      [] OTHER -> FALSE
ErrProps == CASE E.op \in {"init", "add", "rem"} -> {"C10", "C11"}
              [] E.op \in {"trem", "p2g", "g2p"} -> {"C11"}
              [] E.op \in {"sa", "sr", "sv", "sc"} -> Law
              [] OTHER -> {"C14"}
Refused == /\ IsEvent("err")
           /\ Judge(Props, E, Refusable, E, "the call is allowed and must succeed")
           /\ ready' = IF E.op = "init" THEN FALSE ELSE ready
           /\ UNCHANGED <<ses, mp, P, next>>

Other == IsEvent("other") /\ UNCHANGED <<ses, mp, P, next, ready>>
Next == \/ Other \/ Session \/ ModelEv \/ InitEv \/ AddEv \/ RemEv \/ ObsEv
        \/ TInit \/ TAdd \/ TRem \/ P2G \/ G2P \/ TBig
        \/ ScoreVec \/ ScoreData \/ PureAdd \/ PureRem \/ PureCounts \/ PureRuns \/ Big \/ PureZ
        \/ Sampled \/ LongSampled \/ Freq \/ CountEv \/ Reload \/ Refused
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
