----------------------------- MODULE MC_Arrays -----------------------------
(* All arrays of up to MaxLen small integers, at several bit positions: the  *)
(* encoding decodes to the array and ends where it says, the offsets are the *)
(* byte positions of the elements, delta coding is used exactly when it is   *)
(* smaller, its width is the smallest one.                                   *)
EXTENDS Arrays, TLC
CONSTANTS MaxLen, Starts, Lays
VARIABLES sg, vals, start, lay
Col == [k |-> "int", n |-> 3, m |-> 1, w |-> 8, sg |-> sg, opt |-> FALSE, dom |-> <<>>, lim |-> 0]
V(x) == IF sg = 1 THEN SignExt(NatBits(x, 3), 64) ELSE NatBits(x, 64)
RowsOf == [i \in 1..Len(vals) |-> <<<<V(vals[i])>>>>]
Num(x) == IF sg = 1 /\ x > 3 THEN x - 8 ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
Deltas == [i \in 1..(Len(vals) - 1) |-> Num(vals[i + 1]) - Num(vals[i])]
Need == CHOOSE m \in 0..4 : /\ \A i \in 1..Len(Deltas) : Abs(Deltas[i]) < 2^m
                            /\ \A q \in 0..(m - 1) : \E i \in 1..Len(Deltas) : Abs(Deltas[i]) >= 2^q
Init == /\ sg \in {0, 1} /\ vals = <<>> /\ start \in Starts /\ lay \in Lays
Next == Len(vals) < MaxLen /\ \E x \in 0..7 : vals' = Append(vals, x) /\ UNCHANGED <<sg, start, lay>>
Spec == Init /\ [][Next]_<<sg, vals, start, lay>>
DecodesBack(packed) ==
    LET e == Encode(start, lay, packed, <<Col>>, RowsOf)
        b == Zeros(start) \o e.bits \o Ones(5)
        d == Decode(start, lay, packed, <<Col>>, b, start + Len(e.bits), Len(vals))
    IN /\ d.st = "ok" /\ d.rows = RowsOf /\ d.pos = start + Len(e.bits)
       /\ Len(e.offs) = Len(vals)
       /\ AlignedLay(lay) => \A i \in 1..Len(vals) :
              8 * e.offs[i] >= start /\ (~packed => SubSeq(b, 8 * e.offs[i] + 1, 8 * e.offs[i] + 3) = NatBits(vals[i], 3))
RoundTrip == DecodesBack(FALSE) /\ DecodesBack(TRUE)
DeltaRule ==
    Len(vals) > 0 =>
    LET d == Descriptor(<<Col>>, RowsOf, 1)
        n == Len(vals)
        w == Need
        delta == 1 + 6 + 3 + (n - 1) * (IF w = 0 THEN 0 ELSE w + 1)
        plain == 1 + 3 * n
    IN /\ d.mbn = w
       /\ d.packed = (n > 1 /\ delta < plain)
       /\ Len(Encode(start, "normal", TRUE, <<Col>>, RowsOf).bits) = (IF n > 1 /\ delta < plain THEN delta ELSE plain)
(* 64-bit extremes: differences up to 2^64-1 are measured without loss, those over the limit stay plain *)
C64(s) == [k |-> "int", n |-> 64, m |-> 1, w |-> 64, sg |-> s, opt |-> FALSE, dom |-> <<>>, lim |-> 0]
Row(v) == <<<<v>>>>
ASSUME DeltaLen(1, Int64Min, <<0>> \o Ones(63)) = 64
ASSUME DeltaLen(0, Zeros(64), Ones(64)) = 64
ASSUME ~Descriptor(<<C64(1)>>, <<Row(Int64Min), Row(<<0>> \o Ones(63))>>, 1).packed
ASSUME LET r == <<Row(Zeros(2) \o Ones(62)), Row(Zeros(64)), Row(Zeros(64))>>
       IN Descriptor(<<C64(1)>>, r, 1) = [mbn |-> 62, packed |-> FALSE]
ASSUME LET r == [i \in 1..9 |-> Row(IF i % 2 = 1 THEN Zeros(2) \o Ones(62) ELSE Zeros(64))]
       IN LET e == Encode(0, "normal", TRUE, <<C64(0)>>, r)
          IN /\ Descriptor(<<C64(0)>>, r, 1) = [mbn |-> 62, packed |-> TRUE]
             /\ Decode(0, "normal", TRUE, <<C64(0)>>, e.bits, Len(e.bits), 9).rows = r
=============================================================================
