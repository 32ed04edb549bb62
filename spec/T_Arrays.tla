----------------------------- MODULE T_Arrays ------------------------------
EXTENDS Arrays, TraceBase
VARIABLE cols
TInit == l = 1 /\ cols = <<>>
TCols == IsEvent("Cols") /\ cols' = Line.cols
Max2(a, b) == IF a > b THEN a ELSE b
Rows(r) == [i \in 1..Len(r) |-> [c \in 1..Len(cols) |->
             IF r[i][c] # <<>> /\ cols[c].k \in {"str", "bytes"} THEN <<BytesToBits(r[i][c][1])>> ELSE r[i][c]]]
EncOk(e) ==
    LET rows == Rows(e.rows)
        in == \A i \in 1..Len(rows) : \A c \in 1..Len(cols) : rows[i][c] = <<>> \/ Valid(cols[c], i, rows[i][c][1])
        enc == Encode(e.start, e.lay, e.packed, cols, rows)
    IN /\ e.val = (in /\ (e.lay \in {"normal", "aligned"} => Len(rows) = e.schema))
       /\ e.done = in
       /\ in => /\ e.bits = enc.bits
                /\ e.size = Len(enc.bits) /\ e.init = Len(enc.bits) /\ e.pos = e.start + Len(enc.bits)
                /\ (AlignedLay(e.lay) => e.offs = enc.offs)
                /\ e.back /\ e.rpos = (IF e.lay = "implicit" THEN e.start + Len(enc.bits) ELSE e.pos)
TEnc == IsEvent("Enc") /\ (EncOk(Line) = TRUE) /\ UNCHANGED cols
(* memory: the element storage stays within the preallocation limit or what the decoded elements justify *)
MemOk(e, n) == LET v == Max2(e.prealloc, 2 * e.cnt * e.sz) IN
    /\ e.largest <= Max2(v, Len(e.bytes) + 64)
    /\ e.peak <= 2 * v + 4 * Len(e.bytes) + 128 * (e.cnt + 1)
DecOk(e) ==
    LET bits == BytesToBits(e.bytes)
        d == Decode(e.start, e.lay, e.packed, cols, bits, e.lim, e.given)
    IN /\ IF d.st = "endless" THEN e.oom \/ e.ok ELSE ~e.oom
       /\ d.st # "endless" =>
            /\ e.ok = (d.st = "ok")
            /\ MemOk(e, Len(d.rows))
            /\ d.st = "ok" => /\ Len(e.rows) = Len(d.rows) /\ e.pos = d.pos
                              /\ Rows(e.rows) = d.rows
            /\ d.st # "ok" => e.cnt <= Len(d.rows) + 1
TDec == IsEvent("Dec") /\ (DecOk(Line) = TRUE) /\ UNCHANGED cols
TEnd == IsEvent("End") /\ UNCHANGED cols
TNext == TCols \/ TEnc \/ TDec \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, cols>>
=============================================================================
