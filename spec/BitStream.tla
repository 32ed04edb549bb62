----------------------------- MODULE BitStream -----------------------------
(* Bit stream writer and reader as state machines over one buffer each.      *)
(* Position 0 is the most significant bit of the first byte.                 *)
EXTENDS ZBits

VARIABLES wbuf,   \* bits of the writer's buffer (whole bytes, so possibly longer than wcap)
          wcap,   \* capacity in bits
          whas,   \* FALSE: writer without a buffer (only counts)
          wpos,
          rbuf, rcap, rpos
wvars == <<wbuf, wcap, whas, wpos>>
rvars == <<rbuf, rcap, rpos>>
vars == <<wbuf, wcap, whas, wpos, rbuf, rcap, rpos>>

Put(buf, p, b) == [i \in 1..Len(buf) |-> IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE buf[i]]
MinOf(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Encodable(op) / Encoding(op): which typed values are accepted and their bits.
   op is a record: k kind, n bit count, v value (64 bits for integers, raw bits for floats and blobs). *)
FixedKinds == {"U32", "U64", "S32", "S64", "bool", "f16", "f32", "f64"}
BlobKinds == {"str", "bytes", "bb"}
Encodable(op) ==
    CASE op.k \in {"U32", "U64"} -> op.n >= 1 /\ op.n <= (IF op.k = "U32" THEN 32 ELSE 64) /\ FitsU(op.v, op.n)
      [] op.k \in {"S32", "S64"} -> op.n >= 1 /\ op.n <= (IF op.k = "S32" THEN 32 ELSE 64) /\ FitsS(op.v, op.n)
      [] op.k \in VarKinds -> VarInRange(op.k, op.v)
      [] OTHER -> TRUE
Encoding(op) ==
    CASE op.k \in {"U32", "U64", "S32", "S64"} -> Last0(op.v, op.n)
      [] op.k \in VarKinds -> EncVar(op.k, op.v)
      [] op.k = "bool" -> op.v
      [] op.k = "f16" -> SingleToHalf(op.v)
      [] op.k \in {"f32", "f64"} -> op.v
      [] op.k \in {"str", "bytes"} -> EncVar("sz", NatBits(Len(op.v) \div 8, 64)) \o op.v
      [] op.k = "bb" -> EncVar("sz", NatBits(Len(op.v), 64)) \o op.v

FitsW(n) == ~whas \/ wpos + n <= wcap
(* only bits after position a up to position b may differ *)
UnchangedOutside(buf2, a, b) == TRUE = (\A i \in 1..Len(wbuf) : (i > a /\ i <= b) \/ buf2[i] = wbuf[i])
(* a successful write *)
WriteBits(b) ==
    /\ FitsW(Len(b))
    /\ wbuf' = IF whas THEN Put(wbuf, wpos, b) ELSE wbuf
    /\ wpos' = wpos + Len(b)
    /\ UNCHANGED <<wcap, whas, rbuf, rcap, rpos>>
Write(op) == Encodable(op) /\ WriteBits(Encoding(op))
(* a rejected write of one fixed-width value changes nothing *)
WriteRejected(op) ==
    /\ IF Encodable(op) THEN ~FitsW(Len(Encoding(op))) ELSE TRUE
    /\ UNCHANGED vars
(* a rejected compound value may have written some of its leading parts, nothing outside its own extent *)
WriteRejectedPart(op, buf2, pos2) ==
    /\ IF Encodable(op) THEN ~FitsW(Len(Encoding(op))) ELSE TRUE
    /\ pos2 >= wpos /\ (whas => pos2 <= wcap)
    /\ Len(buf2) = Len(wbuf)
    /\ LET end == IF Encodable(op) THEN MinOf(wcap, wpos + Len(Encoding(op))) ELSE wcap
       IN UnchangedOutside(buf2, wpos, end)
    /\ wbuf' = buf2 /\ wpos' = pos2
    /\ UNCHANGED <<wcap, whas, rbuf, rcap, rpos>>
AlignGap(p, a) == IF p % a = 0 THEN 0 ELSE a - (p % a)
WAlign(a) == WriteBits(Zeros(AlignGap(wpos, a)))
WAlignRejected(a, buf2, pos2) ==
    /\ ~FitsW(AlignGap(wpos, a))
    /\ pos2 >= wpos /\ pos2 <= wcap /\ Len(buf2) = Len(wbuf)
    /\ UnchangedOutside(buf2, wpos, wcap)
    /\ wbuf' = buf2 /\ wpos' = pos2
    /\ UNCHANGED <<wcap, whas, rbuf, rcap, rpos>>
WSeek(p) == (whas => p <= wcap) /\ wpos' = p /\ UNCHANGED <<wbuf, wcap, whas, rbuf, rcap, rpos>>
WSeekRejected(p) == whas /\ p > wcap /\ UNCHANGED vars
NewWriter(bits, cap, has) ==
    /\ wbuf' = bits /\ wcap' = cap /\ whas' = has /\ wpos' = 0 /\ UNCHANGED rvars

-----------------------------------------------------------------------------
(* Decoding at the read position: st "ok" with value v and length, or why it is rejected *)
DecFixed(n) == IF rpos + n <= rcap THEN [st |-> "ok", len |-> n, v |-> SubSeq(rbuf, rpos + 1, rpos + n)]
               ELSE [st |-> "eof", len |-> 0, v |-> <<>>]
DecBlob(unit) ==
    LET d == DecVar("sz", rbuf, rpos, rcap)
    IN IF d.st # "ok" THEN d
       ELSE LET room == rcap - rpos - d.len
            IN IF SigLen(d.v) > 20 \/ BitsNat(d.v) > room \div unit THEN [st |-> "eof", len |-> 0, v |-> <<>>]
               ELSE LET n == BitsNat(d.v) * unit IN [st |-> "ok", len |-> d.len + n,
                            v |-> SubSeq(rbuf, rpos + d.len + 1, rpos + d.len + n)]
Dec(k, n) ==
    CASE k \in {"U32", "U64", "S32", "S64"} ->
           IF n = 0 \/ n > (IF k \in {"U32", "S32"} THEN 32 ELSE 64) THEN [st |-> "range", len |-> 0, v |-> <<>>]
           ELSE LET d == DecFixed(n)
                IN IF d.st # "ok" THEN d
                   ELSE [d EXCEPT !.v = IF k \in {"U32", "U64"} THEN ZeroExt(d.v, 64) ELSE SignExt(d.v, 64)]
      [] k = "bool" -> DecFixed(1)
      [] k = "f16" -> LET d == DecFixed(16) IN IF d.st # "ok" THEN d ELSE [d EXCEPT !.v = HalfToSingle(d.v)]
      [] k = "f32" -> DecFixed(32)
      [] k = "f64" -> DecFixed(64)
      [] k \in VarKinds -> DecVar(k, rbuf, rpos, rcap)
      [] k \in {"str", "bytes"} -> DecBlob(8)
      [] k = "bb" -> DecBlob(1)
Read(k, n, v) ==
    LET d == Dec(k, n) IN
    /\ d.st = "ok" /\ v = d.v
    /\ rpos' = rpos + d.len
    /\ UNCHANGED <<wbuf, wcap, whas, wpos, rbuf, rcap>>
ReadRejected(k, n, pos2) ==
    /\ Dec(k, n).st # "ok"
    /\ IF k \in FixedKinds THEN pos2 = rpos ELSE pos2 >= rpos /\ pos2 <= rcap
    /\ rpos' = pos2
    /\ UNCHANGED <<wbuf, wcap, whas, wpos, rbuf, rcap>>
RSeek(p) == p <= rcap /\ rpos' = p /\ UNCHANGED <<wbuf, wcap, whas, wpos, rbuf, rcap>>
RSeekRejected(p) == p > rcap /\ UNCHANGED vars
RAlign(a) == rpos + AlignGap(rpos, a) <= rcap /\ rpos' = rpos + AlignGap(rpos, a)
             /\ UNCHANGED <<wbuf, wcap, whas, wpos, rbuf, rcap>>
RAlignRejected(a, pos2) ==
    /\ rpos + AlignGap(rpos, a) > rcap /\ pos2 >= rpos /\ pos2 <= rcap /\ rpos' = pos2
    /\ UNCHANGED <<wbuf, wcap, whas, wpos, rbuf, rcap>>
NewReader(bits, cap) == rbuf' = bits /\ rcap' = cap /\ rpos' = 0 /\ UNCHANGED wvars

Init == wbuf = <<>> /\ wcap = 0 /\ whas = TRUE /\ wpos = 0 /\ rbuf = <<>> /\ rcap = 0 /\ rpos = 0
=============================================================================
