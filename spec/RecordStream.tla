---------------------------- MODULE RecordStream ----------------------------
(***************************************************************************)
(* The two record formats of distributions.io.stream.                      *)
(*                                                                         *)
(* A protobuf stream is a sequence of records, each preceded by its length *)
(* in HeaderLen little-endian digits of base Base (4 bytes in the code); a *)
(* JSON stream is "[", one record per line with commas between, "]".       *)
(* Reading is defined on any sequence of bytes, in particular on every     *)
(* prefix of a stream (the writer died, the disk was full, the file is     *)
(* still being written).                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Base, HeaderLen

RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE <<n % Base>> \o Digits(n \div Base, k - 1)
RECURSIVE Number(_)
Number(d) == IF d = <<>> THEN 0 ELSE d[1] + Base * Number(Tail(d))
Encode(r) == Digits(Len(r), HeaderLen) \o r
RECURSIVE EncodeAll(_)
EncodeAll(rs) == IF rs = <<>> THEN <<>> ELSE Encode(rs[1]) \o EncodeAll(Tail(rs))
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]

\* what a reader returns: the records, and how it ends
Got(rs, e) == [recs |-> rs, end |-> e]
RECURSIVE Read(_)
Read(b) ==
    IF b = <<>> THEN Got(<<>>, "end")
    ELSE IF Len(b) < HeaderLen THEN Got(<<>>, "cut")
    ELSE LET n == Number(SubSeq(b, 1, HeaderLen)) IN
         IF Len(b) < HeaderLen + n THEN Got(<<>>, "cut")
         ELSE LET rest == Read(SubSeq(b, HeaderLen + n + 1, Len(b)))
              IN  Got(<<SubSeq(b, HeaderLen + 1, HeaderLen + n)>> \o rest.recs, rest.end)
\* the same reader without the test on the length of the record
RECURSIVE Careless(_)
Careless(b) ==
    IF Len(b) < HeaderLen THEN Got(<<>>, "end")
    ELSE LET n == Number(SubSeq(b, 1, HeaderLen))
             m == IF HeaderLen + n < Len(b) THEN HeaderLen + n ELSE Len(b)
             rest == Careless(SubSeq(b, m + 1, Len(b)))
         IN  Got(<<SubSeq(b, HeaderLen + 1, m)>> \o rest.recs, rest.end)

---------------------------------------------------------------------------
(* JSON, as lines of characters                                             *)
NL == "\n"
RECURSIVE Items(_)
Items(rs) == IF Len(rs) = 0 THEN <<>>
             ELSE IF Len(rs) = 1 THEN <<NL>> \o rs[1]
             ELSE <<NL>> \o rs[1] \o <<",">> \o Items(Tail(rs))
JEncode(rs) == <<"[">> \o Items(rs) \o <<NL, "]">>
RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i > Len(b) THEN Len(b) ELSE IF b[i] = NL THEN i ELSE LineEnd(b, i + 1)
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in {",", NL} THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE JLines(_, _)
JLines(b, valid) ==
    LET e == LineEnd(b, 1)  line == RStrip(SubSeq(b, 1, e)) IN
    IF line = <<"]">> THEN Got(<<>>, "end")
    ELSE IF line \notin valid THEN Got(<<>>, "cut")
    ELSE LET rest == JLines(SubSeq(b, e + 1, Len(b)), valid) IN Got(<<line>> \o rest.recs, rest.end)
JRead(b, valid) == IF Len(b) < 2 \/ b[1] # "[" \/ b[2] # NL THEN Got(<<>>, "cut")
                      ELSE JLines(SubSeq(b, 3, Len(b)), valid)
=============================================================================
