---------------------------- MODULE TraceStreams ----------------------------
(* Trace validation of distributions.io.stream against RecordStream. A     *)
(* record is written <<length, signature>>: the bytes themselves when short, *)
(* a digest when long.                                                     *)
EXTENDS RecordStream, FiniteSets, TLC, Json, IOUtils
CONSTANTS Props
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, files
vars == <<l, files>>
E == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Judge(ok, what, got, want) ==
    IF "C20" \notin Props \/ ok THEN TRUE ELSE PrintT(<<"REJECT", l, {"C20"}, what, got, want>>) /\ FALSE
Put(k, x) == [y \in DOMAIN files \cup {k} |-> IF y = k THEN x ELSE files[y]]
None == [x \in {} |-> 0]
Empty == [kind |-> "p", recs |-> <<>>, size |-> 0, cut |-> -1]

Init == l = 1 /\ files = None
Session == IsEvent("session") /\ files' = None

\* written through the library (or, natively, by the harness); the bytes of a
\* plain file are given when short
RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE HeaderLen + rs[1][1] + Total(Tail(rs))
Framed(rs) == (E.plain = 1) =>
    /\ Judge(E.size = Total(rs), "size of the file", E.size, Total(rs))
    /\ E.raw # <<>> => LET w == EncodeAll([i \in 1..Len(E.bytes) |-> E.bytes[i]]) IN Judge(E.raw = w, "bytes of the file", E.raw, w)
PDump == /\ IsEvent("pdump") /\ Framed(E.recs)
         /\ files' = Put(E.file, [kind |-> "p", recs |-> E.recs, size |-> E.size, cut |-> -1])
PApp == /\ IsEvent("papp")
        /\ LET was == IF E.file \in DOMAIN files THEN files[E.file] ELSE Empty IN
           /\ was.cut = -1 /\ Framed(was.recs \o E.recs)
           /\ files' = Put(E.file, [was EXCEPT !.recs = @ \o E.recs, !.size = E.size])
JDump == IsEvent("jdump") /\ files' = Put(E.file, [kind |-> "j", recs |-> E.recs, size |-> E.size, cut |-> -1])
Cut == /\ IsEvent("cut") /\ E.n <= files[E.file].size
       /\ files' = Put(E.file, [files[E.file] EXCEPT !.cut = IF E.n = files[E.file].size THEN -1 ELSE E.n])

\* records that lie entirely in the first n bytes of a plain protobuf stream
RECURSIVE Within(_, _)
Within(rs, n) == IF rs = <<>> \/ n < HeaderLen + rs[1][1] THEN 0 ELSE 1 + Within(Tail(rs), n - HeaderLen - rs[1][1])
Load == /\ IsEvent("load") /\ UNCHANGED files
        /\ LET x == files[E.file]  got == E.got IN
           IF x.cut = -1 THEN /\ Judge(E.end = "end", "the stream is complete", E, x.recs)
                              /\ Judge(got = x.recs, "records", got, x.recs)
           ELSE IF x.kind = "j" THEN
               Judge(IF E.end = "end" THEN got = x.recs
                     ELSE got = <<>> \/ IsPrefix(SubSeq(got, 1, Len(got) - 1), x.recs), "cut off", E, x)
           ELSE IF E.plain = 1 THEN
               LET k == Within(x.recs, x.cut) IN
               Judge(got = SubSeq(x.recs, 1, k) /\ (Total(got) = x.cut => E.end = "end"), "cut off", E, x)
           ELSE Judge(IsPrefix(got, x.recs), "cut off", E, x)
Next == Session \/ PDump \/ PApp \/ JDump \/ Cut \/ Load
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
