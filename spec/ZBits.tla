------------------------------- MODULE ZBits -------------------------------
(* Values and encodings of the zserio wire format over sequences of bits     *)
(* (0/1, most significant first).  64-bit quantities are 64-element bit      *)
(* sequences, because TLC integers are 32 bits wide.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

ByteBits == [b \in 0..255 |-> [i \in 1..8 |-> (b \div (2^(8-i))) % 2]]
BytesToBits(bs) == [i \in 1..(8*Len(bs)) |-> ByteBits[bs[((i-1) \div 8) + 1]][((i-1) % 8) + 1]]
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]
Last0(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))        \* the n least significant bits
(* small natural number as n bits *)
NatBits(v, n) == [i \in 1..n |-> IF n - i > 30 THEN 0 ELSE (v \div (2^(n-i))) % 2]
BitsNat(b) == FoldLeft(LAMBDA a, x : 2*a + x, 0, b)     \* only for values < 2^31
FirstOne(m) == SelectInSeq(m, LAMBDA x : x = 1)
LastOne(m) == SelectLastInSeq(m, LAMBDA x : x = 1)
SigLen(m) == IF FirstOne(m) = 0 THEN 0 ELSE Len(m) - FirstOne(m) + 1
IsZero(m) == FirstOne(m) = 0
Negate(m) == LET p == LastOne(m) IN IF p = 0 THEN m ELSE [i \in 1..Len(m) |-> IF i < p THEN 1 - m[i] ELSE m[i]]
SignExt(b, n) == [i \in 1..n |-> IF i <= n - Len(b) THEN b[1] ELSE b[i - (n - Len(b))]]
ZeroExt(b, n) == [i \in 1..n |-> IF i <= n - Len(b) THEN 0 ELSE b[i - (n - Len(b))]]
FitsU(v, n) == SigLen(v) <= n
FitsS(v, n) == n >= 1 /\ \A i \in 1..(Len(v) - n + 1) : v[i] = v[1]
(* unsigned and two's complement comparison of equally long bit sequences *)
FirstDiff(a, b) == SelectInSeq([i \in 1..Len(a) |-> IF a[i] = b[i] THEN 0 ELSE 1], LAMBDA x : x = 1)
LtU(a, b) == LET d == FirstDiff(a, b) IN d # 0 /\ a[d] < b[d]
LtS(a, b) == IF a[1] # b[1] THEN a[1] = 1 ELSE LtU(a, b)
(* addition modulo 2^n *)
Add(a, b) ==
    LET r == FoldRight(LAMBDA i, acc : LET s == a[i] + b[i] + acc.c IN [c |-> s \div 2, o |-> <<s % 2>> \o acc.o],
                       [i \in 1..Len(a) |-> i], [c |-> 0, o |-> <<>>])
    IN r.o
Sub(a, b) == Add(a, Negate(b))

-----------------------------------------------------------------------------
(* variable-length integers *)
VarKinds == {"v16", "v32", "v64", "v", "u16", "u32", "u64", "u", "sz"}
VarMax(k) == CASE k \in {"v16", "u16"} -> 2 [] k \in {"v32", "u32"} -> 4 [] k \in {"v64", "u64"} -> 8
               [] k \in {"v", "u"} -> 9 [] k = "sz" -> 5
VarSg(k) == IF k \in {"v16", "v32", "v64", "v"} THEN 1 ELSE 0
VarCap(k, n) == (IF n = VarMax(k) THEN 7*(n-1) + 8 ELSE 7*n) - VarSg(k)
ValueNeg(k, v) == VarSg(k) = 1 /\ v[1] = 1
ValueMag(k, v) == IF ValueNeg(k, v) THEN Negate(v) ELSE v
Int64Min == [i \in 1..64 |-> IF i = 1 THEN 1 ELSE 0]
(* v: 64 bits, two's complement for signed kinds *)
VarInRange(k, v) ==
    \/ k = "v"
    \/ k = "sz" /\ SigLen(v) <= 31
    \/ k \notin {"v", "sz"} /\ SigLen(ValueMag(k, v)) <= VarCap(k, VarMax(k))
VarBytes(k, v) ==     \* number of bytes of the encoding
    IF k = "v" /\ v = Int64Min THEN 1
    ELSE LET s == SigLen(ValueMag(k, v)) IN CHOOSE n \in 1..VarMax(k) : s <= VarCap(k, n) /\ (n = 1 \/ s > VarCap(k, n-1))
PayOff(k, i) == IF i = 1 THEN 0 ELSE 7 - VarSg(k) + 7*(i-2)
PayWidth(k, i) == 8 - (IF i = 1 THEN VarSg(k) ELSE 0) - (IF i < VarMax(k) THEN 1 ELSE 0)
EncVar(k, v) ==
    IF k = "v" /\ v = Int64Min THEN <<1, 0, 0, 0, 0, 0, 0, 0>>
    ELSE LET n == VarBytes(k, v)
             p == Last0(ValueMag(k, v), VarCap(k, n))
             byte(i) == (IF i = 1 /\ VarSg(k) = 1 THEN <<IF ValueNeg(k, v) THEN 1 ELSE 0>> ELSE <<>>)
                        \o (IF i < VarMax(k) THEN <<IF i < n THEN 1 ELSE 0>> ELSE <<>>)
                        \o SubSeq(p, PayOff(k, i) + 1, PayOff(k, i) + PayWidth(k, i))
         IN FlattenSeq([i \in 1..n |-> byte(i)])

(* decoding at 0-based bit position pos of bits, not going past lim *)
ContBit(k, bits, pos, i) == IF i = VarMax(k) THEN 0 ELSE bits[pos + 8*(i-1) + (IF i = 1 /\ VarSg(k) = 1 THEN 2 ELSE 1)]
DecVar(k, bits, pos, lim) ==
    LET avail == (lim - pos) \div 8
        N == {i \in 1..VarMax(k) : /\ i <= avail
                                   /\ \A j \in 1..(i-1) : ContBit(k, bits, pos, j) = 1
                                   /\ ContBit(k, bits, pos, i) = 0}
    IN IF N = {} THEN [st |-> "eof", len |-> 0, v |-> <<>>]
       ELSE LET n == CHOOSE i \in N : TRUE
                part(i) == LET e == pos + 8*i IN SubSeq(bits, e - PayWidth(k, i) + 1, e)
                mag == FlattenSeq([i \in 1..n |-> part(i)])
                m64 == ZeroExt(mag, 64)
                neg == VarSg(k) = 1 /\ bits[pos + 1] = 1
                val == IF neg THEN IF k = "v" /\ n = 1 /\ IsZero(mag) THEN Int64Min ELSE Negate(m64) ELSE m64
            IN IF k = "sz" /\ SigLen(mag) > 31 THEN [st |-> "range", len |-> 8*n, v |-> <<>>]
               ELSE [st |-> "ok", len |-> 8*n, v |-> val]

-----------------------------------------------------------------------------
(* IEEE 754 binary16 / binary32 *)
(* exact widening of a half *)
HalfToSingle(h) ==
    LET sg == h[1]
        ex == BitsNat(SubSeq(h, 2, 6))
        fr == SubSeq(h, 7, 16)
    IN CASE ex = 31 -> <<sg>> \o Ones(8) \o fr \o Zeros(13)
         [] ex = 0 /\ IsZero(fr) -> <<sg>> \o Zeros(31)
         [] ex = 0 /\ ~IsZero(fr) ->      \* subnormal half: normalise, the leading one becomes implicit
              LET p == FirstOne(fr)
              IN <<sg>> \o NatBits(127 - 14 - p, 8) \o SubSeq(fr, p + 1, 10) \o Zeros(13 + p)
         [] OTHER -> <<sg>> \o NatBits(ex - 15 + 127, 8) \o fr \o Zeros(13)
IsNaNHalf(h) == SubSeq(h, 2, 6) = Ones(5) /\ ~IsZero(SubSeq(h, 7, 16))
IsNaNSingle(f) == SubSeq(f, 2, 9) = Ones(8) /\ ~IsZero(SubSeq(f, 10, 32))
IsNaNDouble(d) == SubSeq(d, 2, 12) = Ones(11) /\ ~IsZero(SubSeq(d, 13, 64))
Inc(b) == Add(b, NatBits(1, Len(b)))
(* round to nearest (ties away from zero) to the first n bits, with room for the carry in front *)
RoundNA(b, n) ==
    LET hd == <<0>> \o SubSeq(b, 1, n)
    IN IF n < Len(b) /\ b[n + 1] = 1 THEN Inc(hd) ELSE hd
(* magnitudes below the smallest subnormal half (2^-24) become zero, too large ones infinity *)
SingleToHalf(f) ==        \* not for NaN
    LET sg == f[1]
        ex == BitsNat(SubSeq(f, 2, 9))
        fr == SubSeq(f, 10, 32)
        e  == ex - 127 + 15
    IN CASE ex = 255 -> <<sg>> \o Ones(5) \o Zeros(10)
         [] ex < 255 /\ e >= 31 -> <<sg>> \o Ones(5) \o Zeros(10)
         [] e >= 1 /\ e < 31 ->      \* the carry of the significand runs into the exponent
              LET r == RoundNA(NatBits(e, 5) \o fr, 15) IN <<sg>> \o Last0(r, 15)
         [] e <= 0 /\ e >= -9 ->     \* subnormal half
              LET r == RoundNA(Zeros(-e) \o <<1>> \o fr, 10) IN <<sg>> \o Zeros(4) \o r
         [] OTHER -> <<sg>> \o Zeros(15)
=============================================================================
