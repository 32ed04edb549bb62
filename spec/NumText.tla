------------------------------ MODULE NumText ------------------------------
(* Decimal texts of integers, booleans and single-precision numbers, as      *)
(* sequences of character codes.                                             *)
EXTENDS ZBits
Digit(d) == 48 + d
(* quotient (same length) and remainder of an unsigned bit sequence divided by ten *)
DivTen(b) == FoldLeft(LAMBDA a, x : LET r == 2 * a.r + x IN IF r >= 10 THEN [q |-> Append(a.q, 1), r |-> r - 10]
                                                         ELSE [q |-> Append(a.q, 0), r |-> r],
                      [q |-> <<>>, r |-> 0], b)
UText(b) ==
    LET step(a, i) == IF i > 1 /\ IsZero(a.b) THEN a
                      ELSE LET d == DivTen(a.b) IN [b |-> d.q, t |-> <<Digit(d.r)>> \o a.t]
    IN FoldLeft(step, [b |-> b, t |-> <<>>], [i \in 1..20 |-> i]).t
SText(b) == IF b[1] = 1 THEN <<45>> \o UText(Negate(b)) ELSE UText(b)
BoolText(v) == IF v THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
PlusInf == <<43, 73, 110, 102>>
MinusInf == <<45, 73, 110, 102>>
NaNText == <<78, 97, 78>>

(* single precision: magnitude = 24-bit significand * 2^(exponent-150) *)
FExp(f) == LET e == BitsNat(SubSeq(f, 2, 9)) IN IF e = 0 THEN 1 ELSE e
FSig(f) == <<IF IsZero(SubSeq(f, 2, 9)) THEN 0 ELSE 1>> \o SubSeq(f, 10, 32)
(* integral part as 64 bits, for magnitudes below 2^64 *)
FInt(f) == LET s == FExp(f) - 150 IN
    IF s >= 0 THEN Last0(Zeros(64) \o FSig(f) \o Zeros(s), 64)
    ELSE IF s <= -24 THEN Zeros(64) ELSE ZeroExt(SubSeq(FSig(f), 1, 24 + s), 64)
(* bits behind the binary point; very small magnitudes are cut, they are below every digit *)
FFrac(f) == LET s == FExp(f) - 150 IN
    IF s >= 0 THEN <<0>>
    ELSE IF s > -24 THEN SubSeq(FSig(f), 25 + s, 24)
    ELSE IF s < -60 THEN Zeros(60) ELSE Zeros(-24 - s) \o FSig(f)
Shl(b, n, w) == Last0(Zeros(w) \o b \o Zeros(n), w)
(* the first three digits, truncated; a second candidate where a single-precision product rounds up to it *)
Milli(f) ==
    LET fr == FFrac(f)
        w == Len(fr) + 34
        x(n) == Shl(fr, n, w)
        p == Add(Add(Add(x(9), x(8)), Add(x(7), x(6))), Add(x(5), x(3)))        \* * 1000
        rounded == Add(Shl(p, 24, w + 24), ZeroExt(p, w + 24))
    IN {BitsNat(Last0(SubSeq(p, 1, w - Len(fr)), 11)),
        BitsNat(Last0(SubSeq(rounded, 1, w - Len(fr)), 11))}
Milli3(m) == IF m = 0 THEN <<48>> ELSE <<Digit(m \div 100), Digit((m \div 10) % 10), Digit(m % 10)>>
(* possible texts <<integral, fraction>>; fraction <<>> means that there is none *)
FloatTexts(f) ==
    LET neg == f[1] = 1
        zero == IsZero(SubSeq(f, 2, 32))
        e == BitsNat(SubSeq(f, 2, 9))
    IN IF IsNaNSingle(f) THEN {<<NaNText, <<>>>>}
       ELSE IF e >= 127 + 63 THEN {<<IF neg THEN MinusInf ELSE PlusInf, <<>>>>}
       ELSE {<<(IF neg /\ ~zero THEN <<45>> ELSE <<>>) \o UText(FInt(f)), Milli3(m)>> : m \in Milli(f)}
FloatText(t) == IF t[2] = <<>> THEN t[1] ELSE t[1] \o <<46>> \o t[2]
=============================================================================
