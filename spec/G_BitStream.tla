---------------------------- MODULE G_BitStream ----------------------------
(* Test generation: the complete labelled transition graph of one reader or  *)
(* writer of a fixed capacity; every edge is printed and later executed.     *)
EXTENDS BitStream, TLC, Json, IOUtils
VARIABLE op
Cap == atoi(IOEnv.CAP)
Mode == IOEnv.GMODE
gvars == <<vars, op>>
Widths == IF Mode = "r" THEN 1..64 ELSE {1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 47, 56, 63, 64}
Seeks == {0, 1, 7, 8, 13, 56, 57, 63, 64, 65, Cap - 1, Cap, Cap + 1}
Aligns == {3, 8, 64, 65}
GInit == /\ wbuf = Zeros(Cap) /\ wcap = Cap /\ whas = TRUE /\ wpos = 0
         /\ rbuf = Zeros(Cap) /\ rcap = Cap /\ rpos = 0
         /\ op = <<>>
GRead == \E n \in Widths : \E k \in (IF n <= 32 THEN {"U32", "S64"} ELSE {"U64", "S64"}) :
            /\ Read(k, n, Dec(k, n).v) \/ ReadRejected(k, n, rpos)
            /\ op' = <<"R", k, n>>
GRSeek == \E p \in Seeks : (RSeek(p) \/ RSeekRejected(p)) /\ op' = <<"RS", p>>
GRAlign == \E a \in Aligns : RAlign(a) /\ op' = <<"RA", a>>
GWrite == \E n \in Widths : \E k \in (IF n <= 32 THEN {"U32", "S64"} ELSE {"U64", "S64"}) :
            /\ LET o == [k |-> k, n |-> n, v |-> Zeros(64)] IN Write(o) \/ WriteRejected(o)
            /\ op' = <<"W", k, n>>
GWSeek == \E p \in Seeks : (WSeek(p) \/ WSeekRejected(p)) /\ op' = <<"WS", p>>
GWAlign == \E a \in Aligns : WAlign(a) /\ op' = <<"WA", a>>
GNext == IF Mode = "r" THEN GRead \/ GRSeek \/ GRAlign ELSE GWrite \/ GWSeek \/ GWAlign
GSpec == GInit /\ [][GNext]_gvars
GView == <<rpos, wpos>>
Edge == PrintT(<<"EDGE", ToJson(<<rpos, wpos>>), ToJson(op'), ToJson(<<rpos', wpos'>>)>>)
(* positions stay inside the capacity *)
Inside == rpos \in 0..rcap /\ wpos \in 0..wcap
=============================================================================
