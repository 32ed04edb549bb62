------------------------------- MODULE T_File -------------------------------
EXTENDS File, TraceBase
TInit == l = 1 /\ fs = <<>>
(* the driver states what exists at the beginning *)
TDir == IsEvent("Dir") /\ fs' = [j \in 1..Len(Line.kinds) |->
            CASE Line.kinds[j] = "absent" -> Absent [] Line.kinds[j] = "full" -> Full [] OTHER -> Refuses]
TWrite == IsEvent("Write") /\ Write(Line.f, Line.d, Line.n, Line.limit, Line.fd, Line.ok)
TRead == IsEvent("Read") /\ Read(Line.f, Line.fd, Line.ok, Line.d, Line.n)
TDel == IsEvent("Del") /\ Delete(Line.f)
TSeen == IsEvent("Seen") /\ IF fs[Line.f].k = "unknown" THEN Learn(Line.f, Line.d) ELSE Seen(Line.f, Line.there, Line.d)
TEnd == IsEvent("End") /\ UNCHANGED fs
TNext == TDir \/ TWrite \/ TRead \/ TDel \/ TSeen \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, fs>>
=============================================================================
