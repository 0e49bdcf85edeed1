---------------------------- MODULE StreamDesign ----------------------------
(***************************************************************************)
(* A writer of a record stream whose bytes reach the file one at a time,   *)
(* and may stop reaching it at any moment; readers see whatever prefix is  *)
(* there.  With Emit the histories (writes, appends, where it stopped) are *)
(* printed, for replay against the real files.                             *)
(***************************************************************************)
EXTENDS RecordStream, TLC, Json, FiniteSets
CONSTANTS Records, MaxRecs, Kind, Emit
VARIABLES file, todo, recs, hist, stopped
vars == <<file, todo, recs, hist, stopped>>

\* JSON records of the model: 1 -> 7, 2 -> 77, 3 -> {}  (a prefix of 77 is itself a record; of {} is not)
Text(r) == CASE r = 1 -> <<"7">> [] r = 2 -> <<"7", "7">> [] r = 3 -> <<"{", "}">>
Valid == {Text(r) : r \in 1..3}
Small == {<<>>, <<0>>, <<1>>, <<1,0>>, <<0,1,1>>}
Marks == {1, 2, 3}
Whole(rs) == IF Kind = "proto" THEN EncodeAll(rs) ELSE JEncode([i \in 1..Len(rs) |-> Text(rs[i])])
Seen == IF Kind = "proto" THEN Read(file) ELSE JRead(file, Valid)
Rec(r) == IF Kind = "proto" THEN r ELSE Text(r)
All == [i \in 1..Len(recs) |-> Rec(recs[i])]

RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET S == SeqsUpTo(n - 1) IN S \cup {Append(s, r) : s \in S, r \in Records}

Init == file = <<>> /\ todo = <<>> /\ recs = <<>> /\ hist = <<>> /\ stopped = FALSE
Dump(rs) == /\ hist = <<>> /\ recs' = rs /\ todo' = Whole(rs) /\ file' = <<>>
            /\ hist' = <<<<"dump", rs>>>> /\ UNCHANGED stopped
\* opened for appending: only once the writer before is done
AppendRec(r) == /\ Kind = "proto" /\ hist # <<>> /\ todo = <<>> /\ ~stopped /\ Len(recs) < MaxRecs
                /\ recs' = Append(recs, r) /\ todo' = Encode(r) /\ hist' = Append(hist, <<"append", <<r>>>>)
                /\ UNCHANGED <<file, stopped>>
Flush == /\ todo # <<>> /\ ~stopped /\ file' = Append(file, Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED <<recs, hist, stopped>>
Stop == /\ hist # <<>> /\ ~stopped /\ stopped' = TRUE /\ hist' = Append(hist, <<"stop", Len(file)>>)
        /\ UNCHANGED <<file, todo, recs>>
Next == (\E rs \in SeqsUpTo(MaxRecs) : Dump(rs)) \/ (\E r \in Records : AppendRec(r)) \/ Flush \/ Stop
Spec == Init /\ [][Next]_vars

\* what is read is always the beginning of what was written
OnlyWritten == hist # <<>> => LET s == Seen IN
    IF s.end = "end" THEN IsPrefix(s.recs, All)
    ELSE s.recs = <<>> \/ IsPrefix(SubSeq(s.recs, 1, Len(s.recs) - 1), All)
ExactRecords == (hist # <<>> /\ Kind = "proto") => IsPrefix(Seen.recs, All)
\* all of it, once it is all there
Complete == (hist # <<>> /\ todo = <<>>) => Seen = Got(All, "end")
\* JSON says where it ends; a protobuf stream may end after any record
EndIsKnown == (hist # <<>> /\ Kind = "json" /\ Seen.end = "end") => Seen.recs = All
EndsAtRecords == (hist # <<>> /\ Kind = "proto") =>
    LET s == Seen IN (s.end = "end") <=> (file = EncodeAll(s.recs))
\* why the length must be tested: witness that must exist
CarelessIsRight == (hist # <<>> /\ Kind = "proto") => LET s == Careless(file) IN s.end = "end" => IsPrefix(s.recs, All)
Show == (Emit /\ stopped) => PrintT("HIST " \o ToJson(hist))
=============================================================================
