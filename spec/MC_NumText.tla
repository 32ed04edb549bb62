---------------------------- MODULE MC_NumText -----------------------------
(* the texts denote the number and are canonical *)
EXTENDS NumText
VARIABLE v
Val(t) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, t)
Canonical(t) == Len(t) > 0 /\ (Len(t) > 1 => t[1] # 48) /\ \A i \in 1..Len(t) : t[i] \in 48..57
ValsOf == 0..1100 \cup {9999, 10000, 65535, 65536, 99999, 1000000, 999999999, 1000000000, 2147483647}
Init == v \in ValsOf
Next == FALSE /\ UNCHANGED v
Unsigned == LET t == UText(NatBits(v, 64)) IN Canonical(t) /\ Val(t) = v
Signed == SText(Negate(NatBits(v, 64))) = (IF v = 0 THEN <<48>> ELSE <<45>> \o UText(NatBits(v, 64)))
(* v thousandths and v sixteenths as floats *)
FloatOf(n, den) ==      \* n / 2^den, exactly
    LET b == NatBits(n, 24) s == SigLen(b)
    IN IF n = 0 THEN Zeros(32) ELSE <<0>> \o NatBits(127 + s - 1 - den, 8) \o SubSeq(Last0(b, s - 1) \o Zeros(24), 1, 23)
Floats == v < 16000000 =>
    /\ FloatTexts(FloatOf(v, 0)) = {<<UText(NatBits(v, 64)), <<48>>>>}
    /\ LET q == v \div 16 r == v % 16 IN FloatTexts(FloatOf(v, 4)) = {<<UText(NatBits(q, 64)), Milli3((r * 1000) \div 16)>>}
ASSUME UText(Ones(64)) = <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
ASSUME SText(Int64Min) = <<45,57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
Spec == Init /\ [][Next]_v
=============================================================================
