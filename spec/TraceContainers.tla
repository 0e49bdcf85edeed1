--------------------------- MODULE TraceContainers ---------------------------
(* Trace validation of Sparse_, SparseCounter and Packed_ (see Containers). *)
EXTENDS Containers, BigReal, TLC, Json, IOUtils
CONSTANTS Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, M, C, S      \* id -> map, id -> multiset, id -> sequence
vars == <<l, M, C, S>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Judge(what, ok, got, want) ==
    IF {"C16"} \cap Props = {} \/ ok THEN TRUE
    ELSE PrintT(<<"REJECT", l, {"C16"}, what, got, want>>) /\ FALSE

AsMap(all) == [k \in {all[i][1] : i \in 1..Len(all)} |-> all[CHOOSE i \in 1..Len(all) : all[i][1] = k][2]]
Distinct(all) == Cardinality({all[i][1] : i \in 1..Len(all)}) = Len(all)
SeeMap(f) == Judge(E, Distinct(E.all) /\ AsMap(E.all) = f /\ E.n = Cardinality(DOMAIN f), E.all, f)
SeeCounter(f) == Judge(E, Distinct(E.all) /\ AsMap(E.all) = f /\ E.total = Total(f), E, <<f, Total(f)>>)
SeeSeq(s) == Judge(E, E.all = s, E.all, s)
Ret(v) == Judge(E, E.r = v, E.r, v)

Init == l = 1 /\ M = Empty /\ C = Empty /\ S = Empty
Session == IsEvent("session") /\ M' = Empty /\ C' = Empty /\ S' = Empty
Zero == "0"

(* maps *)
StepM(f) == M' = Put(M, E.o, f) /\ SeeMap(f) /\ UNCHANGED <<C, S>>
m == M[E.o]
MNew == IsEvent("mnew") /\ StepM(Empty)
MAdd == IsEvent("madd") /\ Judge(E, ~Has(m, E.k), E, "refused") /\ StepM(Put(m, E.k, E.v))
MAddD == IsEvent("maddd") /\ Judge(E, ~Has(m, E.k), E, "refused") /\ Ret(Zero) /\ StepM(Put(m, E.k, E.v))
MRem == IsEvent("mrem") /\ Judge(E, Has(m, E.k), E, "refused") /\ StepM(Drop(m, E.k))
MPop == IsEvent("mpop") /\ Judge(E, Has(m, E.k) /\ E.r = m[E.k], E, "refused") /\ StepM(Drop(m, E.k))
MSet == IsEvent("mset") /\ Judge(E, Has(m, E.k), E, "refused") /\ StepM(Put(m, E.k, E.v))
MGet == (IsEvent("mget") \/ IsEvent("mcget")) /\ Judge(E, Has(m, E.k) /\ E.r = m[E.k], E, "refused") /\ StepM(m)
MMut == IsEvent("mmut") /\ Judge(E, Has(m, E.k), E, "refused") /\ StepM(Put(m, E.k, E.v))
MGoa == IsEvent("mgoa") /\ LET f == IF Has(m, E.k) THEN m ELSE Put(m, E.k, Zero) IN Ret(f[E.k]) /\ StepM(f)
MHas == IsEvent("mhas") /\ Ret(IF Has(m, E.k) THEN 1 ELSE 0) /\ StepM(m)
MErase == IsEvent("merase") /\ Judge(E, Has(m, E.k), E, "refused") /\ StepM(Drop(m, E.k))
MClear == IsEvent("mclear") /\ StepM(Empty)

(* counters *)
StepC(f) == C' = Put(C, E.o, f) /\ SeeCounter(f) /\ UNCHANGED <<M, S>>
c == C[E.o]
CNew == IsEvent("cnew") /\ StepC(Empty)
CInit == IsEvent("cinit") /\ Judge(E, CanInitCount(c, E.k, E.v), E, "refused") /\ StepC(Bump(c, E.k, E.v))
CAdd == IsEvent("cadd") /\ LET f == Bump(c, E.k, E.v) IN Ret(At(f, E.k)) /\ StepC(f)
CRem == IsEvent("crem") /\ LET f == Bump(c, E.k, -1) IN Ret(At(f, E.k)) /\ StepC(f)
CGet == IsEvent("cget") /\ Ret(At(c, E.k)) /\ StepC(c)
CMerge == IsEvent("cmerge") /\ StepC(MergeInto(c, C[E.p]))
CRen == IsEvent("cren") /\ Judge(E, CanRename(c, E.k, E.k2), E, "refused") /\ StepC(Rename(c, E.k, E.k2))
CClear == IsEvent("cclear") /\ StepC(Empty)
CCopy == IsEvent("ccopy") /\ StepC(C[E.p])

(* packed vectors *)
StepS(s) == S' = Put(S, E.o, s) /\ SeeSeq(s) /\ UNCHANGED <<M, C>>
s == S[E.o]
SNew == IsEvent("snew") /\ StepS([i \in 1..E.n |-> E.v])
SPush == (IsEvent("spush") \/ IsEvent("spushd")) /\ StepS(Append(s, E.v))
SRem == IsEvent("srem") /\ Judge(E, E.i + 1 \in 1..Len(s), E, "refused") /\ StepS(PackedRemove(s, E.i + 1))

\* after a refused call the script looks at the object again
See == \/ IsEvent("msee") /\ StepM(m)
       \/ IsEvent("csee") /\ StepC(c)
       \/ IsEvent("ssee") /\ StepS(s)
Arg(i) == E.a[i]
Num(x) == RToInt(x)
Obj(f) == f[Num(Arg(1))]
Refusable ==
    CASE E.op \in {"madd", "maddd"} -> Has(Obj(M), Arg(2))
      [] E.op \in {"mrem", "mpop", "mset", "mget", "mcget", "mmut"} -> ~Has(Obj(M), Arg(2))
      [] E.op = "cinit" -> Has(Obj(C), Arg(2)) /\ Arg(3) # "0"
      [] E.op = "cren" -> ~CanRename(Obj(C), Arg(2), Arg(3))
      [] E.op = "srem" -> Num(Arg(2)) >= Len(Obj(S))
      [] OTHER -> FALSE
Refused == IsEvent("err") /\ Judge(E, Refusable, E, "the call is allowed and must succeed") /\ UNCHANGED <<M, C, S>>

Next == \/ Session \/ MNew \/ MAdd \/ MAddD \/ MRem \/ MPop \/ MSet \/ MGet \/ MMut \/ MGoa \/ MHas \/ MErase \/ MClear
        \/ CNew \/ CInit \/ CAdd \/ CRem \/ CGet \/ CMerge \/ CRen \/ CClear \/ CCopy
        \/ SNew \/ SPush \/ SRem \/ See \/ Refused
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
