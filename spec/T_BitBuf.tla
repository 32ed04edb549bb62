------------------------------ MODULE T_BitBuf ------------------------------
EXTENDS BitBuf, TraceBase
tv == <<val, hashes, l>>
TInit == Init /\ l = 1
(* what the buffer itself reports *)
ShowOk(s, size, bytes, data) ==
    /\ size = Len(val[s]) /\ bytes = (Len(val[s]) + 7) \div 8
    /\ Len(BytesToBits(data)) >= size /\ SubSeq(BytesToBits(data), 1, size) = val[s]
TNew == IsEvent("New") /\ IF Line.ok THEN Fits(Line.n, Len(Line.data)) /\ Construct(Line.s, SubSeq(BytesToBits(Line.data), 1, Line.n))
                          ELSE ~Fits(Line.n, Len(Line.data)) /\ Rejected
TZero == IsEvent("Zero") /\ Construct(Line.s, Zeros(Line.n))
TCopy == IsEvent("Copy") /\ CopyTo(Line.s, Line.t)
TMove == IsEvent("Move") /\ MoveTo(Line.s, Line.t)
TSet == IsEvent("Set") /\ SetBit(Line.s, Line.i, Line.b)
TShow == IsEvent("Show") /\ (ShowOk(Line.s, Line.size, Line.bytes, Line.data) = TRUE) /\ UNCHANGED vars
CmpOk(e) == LET a == val[e.s] b == val[e.t] IN
    /\ e.eq = (a = b) /\ e.ne = (a # b)
    /\ e.lt = LtB(a, b) /\ e.gt = LtB(b, a) /\ e.le = ~LtB(b, a) /\ e.ge = ~LtB(a, b)
TCmp == IsEvent("Cmp") /\ (CmpOk(Line) = TRUE) /\ UNCHANGED vars
THash == IsEvent("Hash") /\ HashStep(Line.s, Line.h)
TEnd == IsEvent("End") /\ UNCHANGED vars
TNext == TNew \/ TZero \/ TCopy \/ TMove \/ TSet \/ TShow \/ TCmp \/ THash \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
