------------------------------ MODULE Decimal ------------------------------
(* Large naturals (limbs of four decimal digits, least significant first) and *)
(* what it means for a double to be the number nearest to a decimal.          *)
EXTENDS ZBits
LB == 10000
Trim(a) == LET p == SelectLastInSeq(a, LAMBDA x : x # 0) IN SubSeq(a, 1, p)
Carry(c) == IF c = 0 THEN <<>> ELSE IF c < LB THEN <<c>> ELSE <<c % LB, c \div LB>>
MulAdd(a, m, c0) == LET r == FoldLeft(LAMBDA s, x : LET v == x * m + s.c IN [o |-> Append(s.o, v % LB), c |-> v \div LB],
                                      [o |-> <<>>, c |-> c0], a)
                    IN r.o \o Carry(r.c)
OfDigits(d) == Trim(FoldLeft(LAMBDA a, x : MulAdd(a, 10, x - 48), <<>>, d))      \* of character codes
OfBits(b) == Trim(FoldLeft(LAMBDA a, x : MulAdd(a, 2, x), <<>>, b))
Pow2(a, n) == LET a1 == FoldLeft(LAMBDA x, i : MulAdd(x, 8192, 0), a, [i \in 1..(n \div 13) |-> i])
              IN MulAdd(a1, 2^(n % 13), 0)
Pow10(a, n) == MulAdd(Zeros(n \div 4) \o a, 10^(n % 4), 0)
CmpBig(x, y) == LET a == Trim(x) b == Trim(y) IN
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET p == SelectLastInSeq([i \in 1..Len(a) |-> IF a[i] = b[i] THEN 0 ELSE 1], LAMBDA z : z = 1)
         IN IF p = 0 THEN 0 ELSE IF a[p] < b[p] THEN -1 ELSE 1
Max0(n) == IF n > 0 THEN n ELSE 0
(* n * 10^e compared with k * 2^q *)
CmpNum(n, e, k, q) == CmpBig(Pow2(Pow10(n, Max0(e)), Max0(-q)), Pow10(Pow2(k, Max0(q)), Max0(-e)))
(* magnitude of a double: significand * 2^DExp *)
DExpField(d) == BitsNat(SubSeq(d, 2, 12))
DSig(d) == <<IF DExpField(d) = 0 THEN 0 ELSE 1>> \o SubSeq(d, 13, 64)
DExp(d) == (IF DExpField(d) = 0 THEN 1 ELSE DExpField(d)) - 1075
Lo(sig) == OfBits(Sub(sig \o <<0>>, NatBits(1, Len(sig) + 1)))
(* the magnitude of d is nearest to n*10^e, ties to the even significand *)
Nearest(d, n, e) ==
    LET s == <<0>> \o DSig(d)
        even == s[Len(s)] = 0
        inf == DExpField(d) = 2047
        atLeast == IF inf THEN CmpNum(n, e, OfBits(<<0>> \o Ones(54)), 970)
                   ELSE IF IsZero(s) THEN 1
                   ELSE IF IsZero(SubSeq(d, 13, 64)) /\ DExpField(d) > 1 THEN CmpNum(n, e, Lo(s \o <<0>>), DExp(d) - 2)
                   ELSE CmpNum(n, e, Lo(s), DExp(d) - 1)
        atMost == IF inf THEN -1 ELSE CmpNum(n, e, OfBits(s \o <<1>>), DExp(d) - 1)
    IN /\ inf => IsZero(SubSeq(d, 13, 64))
       /\ IF even \/ inf THEN atLeast >= 0 /\ atMost <= 0 ELSE atLeast > 0 /\ atMost < 0
(* decimals far outside the range of doubles *)
IsDouble(d, neg, n, e) ==
    /\ d[1] = (IF neg THEN 1 ELSE 0)
    /\ LET m == Tail(d) digits == 4 * Len(n) IN
       IF n = <<>> \/ e + digits < -330 THEN IsZero(m)
       ELSE IF e + digits > 330 THEN DExpField(d) = 2047 /\ IsZero(SubSeq(d, 13, 64))
       ELSE Nearest(d, n, e)
=============================================================================
