----------------------------- MODULE GroupDesign -----------------------------
(***************************************************************************)
(* The streaming algorithms by which the library keeps the sufficient      *)
(* statistics of a group, over exact rationals, next to the bag of values  *)
(* they stand for: two groups, every history of MaxLen additions, repeated *)
(* additions, removals, merges and resets.  TLC checks in every state that *)
(* the statistics are those of the bag, that the laws of Models.tla obey   *)
(* the chain rule (so that the marginal likelihood is the sum of           *)
(* predictive scores in every order), are normalised, and that posterior   *)
(* hyperparameters can stand in for the group they were made from.         *)
(* With Emit set the maximal histories are printed for replay.             *)
(***************************************************************************)
EXTENDS Models, TLC, Json

CONSTANTS M, MaxLen, Emit
VARIABLES st, B, hist
vars == <<st, B, hist>>
G == 1..2

Sh == CASE M = "bb"   -> [alpha |-> "1/2", beta |-> "3"]
        [] M = "dd"   -> [alphas |-> <<"1/2", "2", "1/3">>]
        [] M = "dpd"  -> [alpha |-> "5/2", gamma |-> "1", betas |-> [v \in {"0", "4294967294"} |-> IF v = "0" THEN "1/2" ELSE "1/8"], beta0 |-> "3/8"]
        [] M = "gp"   -> [alpha |-> "3/2", inv_beta |-> "3"]
        [] M = "bnb"  -> [alpha |-> "5/2", beta |-> "3/4", r |-> "1"]
        [] M = "nich" -> [mu |-> "1/2", kappa |-> "3/2", sigmasq |-> "2", nu |-> "5/2"]
        [] M = "niw"  -> [mu |-> <<"1/2", "-1">>, kappa |-> "3/2", psi |-> << <<"2", "1/2">>, <<"1/2", "1">> >>, nu |-> "7/2"]
\* the values that histories are about: value i of the model
Val(i) == CASE M = "bb"   -> <<"0", "1">>[i]
            [] M = "dd"   -> <<"0", "2">>[i]
            [] M = "dpd"  -> <<"0", "4294967294">>[i]
            [] M = "gp"   -> <<"3", "0">>[i]
            [] M = "bnb"  -> <<"2", "0">>[i]
            [] M = "nich" -> <<"-5/2", "7">>[i]
            [] M = "niw"  -> << <<"1", "-2">>, <<"0", "1/2">> >>[i]
V == 1..2
Counting == {"bb", "dd", "dpd"}

---------------------------------------------------------------------------
(* the algorithms                                                          *)
New == CASE M \in Counting -> [c |-> [i \in V |-> "0"], total |-> "0"]
         [] M = "gp"   -> [count |-> "0", sum |-> "0", prod |-> "0"]
         [] M = "bnb"  -> [count |-> "0", sum |-> "0"]
         [] M = "nich" -> [count |-> "0", mean |-> "0", ctv |-> "0"]
         [] M = "niw"  -> [count |-> "0", sx |-> VZero(2), sxx |-> MatZero(2)]
\* n times the value i, n may be -1
Put(s, i, n) ==
    LET k == RInt(n)  v == Val(i) IN
    CASE M \in Counting -> [c |-> [s.c EXCEPT ![i] = RAdd(@, k)], total |-> RAdd(s.total, k)]
      [] M = "gp"  -> [count |-> RAdd(s.count, k), sum |-> RAdd(s.sum, RMul(k, v)), prod |-> RAdd(s.prod, RMul(k, LnFact(v)))]
      [] M = "bnb" -> [count |-> RAdd(s.count, k), sum |-> RAdd(s.sum, RMul(k, v))]
      [] M = "niw" -> [count |-> RAdd(s.count, k), sx |-> VAdd(s.sx, VScale(k, v)), sxx |-> MatAdd(s.sxx, MatScale(k, Outer(v, v)))]
      [] M = "nich" ->
           LET c == RAdd(s.count, k)  d == RSub(v, s.mean) IN
           IF n > 0 THEN
               LET m == RAdd(s.mean, RDiv(RMul(k, d), c)) IN
               [count |-> c, mean |-> m, ctv |-> RAdd(s.ctv, RMul(RMul(k, d), RSub(v, m)))]
           ELSE
               LET m == IF REq(c, "0") THEN "0" ELSE RDiv(RSub(RMul(s.mean, s.count), v), c) IN
               [count |-> c, mean |-> m,
                ctv |-> IF RLe(c, "1") THEN "0" ELSE RSub(s.ctv, RMul(d, RSub(v, m)))]
Into(s, t) ==
    CASE M \in Counting -> [c |-> [i \in V |-> RAdd(s.c[i], t.c[i])], total |-> RAdd(s.total, t.total)]
      [] M = "gp"  -> [count |-> RAdd(s.count, t.count), sum |-> RAdd(s.sum, t.sum), prod |-> RAdd(s.prod, t.prod)]
      [] M = "bnb" -> [count |-> RAdd(s.count, t.count), sum |-> RAdd(s.sum, t.sum)]
      [] M = "niw" -> [count |-> RAdd(s.count, t.count), sx |-> VAdd(s.sx, t.sx), sxx |-> MatAdd(s.sxx, t.sxx)]
      [] M = "nich" ->
           IF t.count = "0" THEN s ELSE
           LET c == RAdd(s.count, t.count)  d == RSub(t.mean, s.mean)  part == RDiv(t.count, c) IN
           [count |-> c, mean |-> RAdd(s.mean, RMul(part, d)),
            ctv |-> RAdd(s.ctv, RAdd(t.ctv, RMul(RMul(s.count, part), RMul(d, d))))]

---------------------------------------------------------------------------
Init == st = [g \in G |-> New] /\ B = [g \in G |-> EmptyBag] /\ hist = <<>>
Do(op) == Len(hist) < MaxLen /\ hist' = Append(hist, op)
Add(g, i, n) == /\ Do(<<IF n = 1 THEN "add" ELSE "rep", g, i, n>>)
                /\ st' = [st EXCEPT ![g] = Put(@, i, n)] /\ B' = [B EXCEPT ![g] = BagAdd(@, Val(i), n)]
Rem(g, i) == /\ Count(B[g], Val(i)) > 0 /\ Do(<<"rem", g, i, 1>>)
             /\ st' = [st EXCEPT ![g] = Put(@, i, -1)] /\ B' = [B EXCEPT ![g] = BagAdd(@, Val(i), -1)]
Merge(g, h) == /\ g # h /\ Do(<<"merge", g, h, 0>>)
               /\ st' = [st EXCEPT ![g] = Into(@, st[h])] /\ B' = [B EXCEPT ![g] = BagUnion(@, B[h])]
Reset(g) == /\ B[g] # EmptyBag /\ Do(<<"new", g, 0, 0>>)
            /\ st' = [st EXCEPT ![g] = New] /\ B' = [B EXCEPT ![g] = EmptyBag]
Next == \/ \E g \in G, i \in V, n \in {1, 3} : Add(g, i, n)
        \/ \E g \in G, i \in V : Rem(g, i)
        \/ \E g, h \in G : Merge(g, h)
        \/ \E g \in G : Reset(g)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
SeqEq(a, b) == \A i \in 1..Len(a) : REq(a[i], b[i])
Represents(s, b) ==
    CASE M \in Counting -> (\A i \in V : REq(s.c[i], RInt(Count(b, Val(i))))) /\ REq(s.total, RSize(b))
      [] M = "gp"  -> REq(s.count, RSize(b)) /\ REq(s.sum, SumValues(b)) /\ RClose(s.prod, LogProd(b), "1e-12", "0")
      [] M = "bnb" -> REq(s.count, RSize(b)) /\ REq(s.sum, SumValues(b))
      [] M = "niw" -> REq(s.count, RSize(b)) /\ SeqEq(s.sx, NiwSumX(Sh, b)) /\ \A i \in 1..2 : SeqEq(s.sxx[i], NiwSumXX(Sh, b)[i])
      [] M = "nich" -> REq(s.count, RSize(b)) /\ REq(s.mean, MeanOf(b)) /\ REq(s.ctv, CtvOf(b))
Refines == \A g \in G : Represents(st[g], B[g])

Close(a, b) == RClose(a, b, "1e-11", "1e-12")
ChainRule == \A i \in V : Close(LnMarg(M, Sh, BagAdd(B[1], Val(i), 1)), RAdd(LnMarg(M, Sh, B[1]), LnPred(M, Sh, B[1], Val(i))))
EmptyIsCertain == REq(LnMarg(M, Sh, EmptyBag), "0")
SumPred(vs) == RSum([v \in vs |-> RExp(LnPred(M, Sh, B[1], v))])
Cut == 12
Normalised ==
    CASE M = "bb"  -> Close(SumPred({"0", "1"}), "1")
      [] M = "dd"  -> Close(SumPred({"0", "1", "2"}), "1")
      [] M = "dpd" -> Close(SumPred({"0", "4294967294", "4294967295"}), "1")
      \* a negative binomial: what is left above K is known in closed form
      [] M = "gp"  -> LET p == Post("gp", Sh, B[1]) IN
                      Close(RAdd(SumPred({RInt(k) : k \in 0..Cut}), RBetaI(RInt(Cut + 1), p.alpha, RDiv("1", RAdd(p.inv_beta, "1")))), "1")
      [] M = "bnb" -> LET p == Post("bnb", Sh, B[1]) IN      \* r = 1
                      Close(RAdd(SumPred({RInt(k) : k \in 0..Cut}),
                                 RExp(RSub(LnRise(p.beta, RInt(Cut + 1)), LnRise(RAdd(p.alpha, p.beta), RInt(Cut + 1))))), "1")
      [] OTHER -> TRUE
Conjugate ==
    M \in {"gp", "bnb", "nich", "niw"} =>
        LET p == Post(M, Sh, B[1]) IN
        /\ Post(M, Sh, EmptyBag) = Sh \/ \A i \in V : Close(LnPred(M, Post(M, Sh, EmptyBag), B[1], Val(i)), LnPred(M, Sh, B[1], Val(i)))
        /\ \A i \in V : Close(LnPred(M, p, EmptyBag, Val(i)), LnPred(M, Sh, B[1], Val(i)))
        /\ \A i \in V : Close(LnPred(M, p, B[2], Val(i)), LnPred(M, Sh, BagUnion(B[1], B[2]), Val(i)))
        /\ Close(RAdd(LnMarg(M, Sh, B[1]), LnMarg(M, p, B[2])), LnMarg(M, Sh, BagUnion(B[1], B[2])))
\* swapping the groups changes nothing, so one of them is enough for the laws
Show == (Emit /\ Len(hist) = MaxLen) => PrintT("HIST " \o ToJson(hist))
Bags == <<st, B, Len(hist)>>
=============================================================================
