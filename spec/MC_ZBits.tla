------------------------------ MODULE MC_ZBits ------------------------------
(* Exhaustive check of the value-level specification itself: every encoding is decoded to the same value, is as
   short as possible and self-delimiting; half precision conversion is exact and monotone. *)
EXTENDS ZBits, TLC
CONSTANT HMax   \* 0: no half precision part
VARIABLES kind, m, h
vars == <<kind, m, h>>
(* magnitudes around every encoding length boundary *)
Mags == UNION {{NatBits(0, 64), Zeros(64 - q) \o Ones(q), Zeros(63 - q) \o <<1>> \o Zeros(q),
                Zeros(64 - q) \o <<1>> \o Zeros(q - 1), Zeros(63-q) \o <<1>> \o Zeros(q-1) \o <<1>>} : q \in 1..63}
        \cup {NatBits(i, 64) : i \in 0..300}
Init == IF HMax = 0 THEN kind \in VarKinds /\ m \in Mags /\ h = 0
        ELSE kind = "u" /\ m = NatBits(0, 64) /\ h \in {k * 1024 : k \in 0..((HMax - 1) \div 1024)}
Next == h < HMax /\ h % 1024 # 1023 /\ h' = h + 1 /\ UNCHANGED <<kind, m>>
Spec == Init /\ [][Next]_vars
Vals == IF VarSg(kind) = 1 THEN {m, Negate(m)} ELSE {m}
Good(v) == VarInRange(kind, v) /\ (VarSg(kind) = 0 \/ v[1] = m[1] \/ v = Negate(m))
RoundTrip ==
    \A v \in Vals : (VarInRange(kind, v) /\ (VarSg(kind) = 1 => TRUE)) =>
        LET e == EncVar(kind, v)
            d == DecVar(kind, e, 0, Len(e))
            d2 == DecVar(kind, <<1, 0, 1>> \o e \o Ones(9), 3, Len(e) + 12)
        IN /\ Len(e) = 8 * VarBytes(kind, v)
           /\ d.st = "ok" /\ d.v = v /\ d.len = Len(e)
           /\ d2.st = "ok" /\ d2.v = v /\ d2.len = Len(e)
           /\ DecVar(kind, e, 0, Len(e) - 1).st = "eof"
H == NatBits(h, 16)
S == HalfToSingle(H)
Widening ==
    /\ SingleToHalf(S) = H                                   \* exact both ways for every finite half
    /\ h < 31743 => LET n == HalfToSingle(NatBits(h + 1, 16)) IN
        /\ LtU(S, n)                                         \* monotone
        \* the midpoint rounds up, everything below it rounds down
        /\ LET mid == Add(S, <<0>> \o SubSeq(Sub(n, S), 1, 31)) IN
           h >= 1 => /\ SingleToHalf(mid) = NatBits(h + 1, 16)
                     /\ SingleToHalf(Sub(mid, NatBits(1, 32))) = H
Arith == \A v \in Vals : /\ Add(v, Negate(v)) = Zeros(64) \/ v = Zeros(64)
                         /\ Sub(Add(v, m), m) = v
=============================================================================
