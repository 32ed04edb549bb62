---------------------------- MODULE T_BitStream ----------------------------
EXTENDS BitStream, TraceBase
tv == <<wbuf, wcap, whas, wpos, rbuf, rcap, rpos, l>>
TInit == Init /\ l = 1
Same == wpos' = Line.pos /\ wbuf' = BytesToBits(Line.buf)
(* op record with value in bits *)
OpOf(ln) == [k |-> ln.k, n |-> ln.n,
             v |-> IF ln.k \in {"str", "bytes"} THEN BytesToBits(ln.v) ELSE ln.v]
TNewW == IsEvent("NewW") /\ NewWriter(BytesToBits(Line.buf), Line.cap, Line.has)
TNewR == IsEvent("NewR") /\ NewReader(BytesToBits(Line.buf), Line.cap)
(* the computed bit size (bs) is the length of the encoding, and is computable exactly for encodable values *)
SizeOk(op) == Line.bs = -1 \/ (IF Encodable(op) THEN Line.bs = Len(Encoding(op)) ELSE Line.bs = -2)
TWrite == /\ IsEvent("W")
          /\ LET op == OpOf(Line) IN
             /\ SizeOk(op)
             /\ \/ /\ Line.ok
                   /\ IF op.k = "f16" /\ IsNaNSingle(op.v)
                      THEN LET b == IF whas THEN SubSeq(BytesToBits(Line.buf), wpos + 1, wpos + 16) ELSE Zeros(16)
                           IN WriteBits(b) /\ (IF whas THEN IsNaNHalf(b) ELSE TRUE)
                      ELSE Write(op)
                   /\ wbuf' = BytesToBits(Line.buf)
                \/ /\ ~Line.ok
                   /\ IF op.k \in FixedKinds THEN WriteRejected(op) ELSE WriteRejectedPart(op, BytesToBits(Line.buf), Line.pos)
                   /\ wbuf' = BytesToBits(Line.buf)
          /\ wpos' = Line.pos
TWAlign == /\ IsEvent("WA")
           /\ \/ Line.ok /\ WAlign(Line.n)
              \/ ~Line.ok /\ WAlignRejected(Line.n, BytesToBits(Line.buf), Line.pos)
           /\ Same
TWSeek == /\ IsEvent("WS")
          /\ \/ Line.ok /\ WSeek(Line.n)
             \/ ~Line.ok /\ WSeekRejected(Line.n)
          /\ Same
TRead == /\ IsEvent("R")
         /\ \/ /\ Line.ok
               /\ LET v == IF Line.k \in {"str", "bytes"} THEN BytesToBits(Line.v) ELSE Line.v IN
                  IF Line.k = "f16" /\ IsNaNSingle(v)
                  THEN Dec("f16", 0).st = "ok" /\ IsNaNSingle(Dec("f16", 0).v) /\ Read("f16", 0, Dec("f16", 0).v)
                  ELSE Read(Line.k, Line.n, v)
            \/ ~Line.ok /\ ReadRejected(Line.k, Line.n, Line.pos)
         /\ rpos' = Line.pos
TRAlign == /\ IsEvent("RA")
           /\ \/ Line.ok /\ RAlign(Line.n)
              \/ ~Line.ok /\ RAlignRejected(Line.n, Line.pos)
           /\ rpos' = Line.pos
TRSeek == /\ IsEvent("RS")
          /\ \/ Line.ok /\ RSeek(Line.n)
             \/ ~Line.ok /\ RSeekRejected(Line.n)
          /\ rpos' = Line.pos
TEnd == IsEvent("End") /\ UNCHANGED vars
TNext == TNewW \/ TNewR \/ TWrite \/ TWAlign \/ TWSeek \/ TRead \/ TRAlign \/ TRSeek \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
