------------------------------- MODULE Items --------------------------------
(* An enumeration or bitmask: c is the column (Arrays) of its underlying     *)
(* type, names its item names, vals the values of the items (64 bits).       *)
EXTENDS Arrays
VARIABLE def
vars == <<def>>
Nothing == [c |-> [k |-> "int", n |-> 8, m |-> 1, w |-> 8, sg |-> 0, opt |-> FALSE], names |-> <<>>, vals |-> <<>>]
Init == def = Nothing
Define(d) == /\ Len(d.names) = Len(d.vals)
             /\ \A i, j \in 1..Len(d.names) : i # j => d.names[i] # d.names[j] /\ d.vals[i] # d.vals[j]
             /\ def' = d
NoItem == 0
(* position of the item, 0 when there is none *)
ByName(n) == SelectInSeq(def.names, LAMBDA x : x = n)
ByValue(v) == SelectInSeq(def.vals, LAMBDA x : x = v)
InType(v) == Valid(def.c, 1, v)
Code(v) == Plain(def.c, 1, v)
(* decoding an enumeration: underlying value, known items only *)
DecItem(bits, pos, mask) ==
    LET d == DecPlain(def.c, 1, bits, pos, Len(bits))
    IN IF d.st # "ok" THEN d ELSE IF ~mask /\ ByValue(d.v) = 0 THEN Fail("item") ELSE d
(* bitwise operations within the width of the underlying type *)
W(v) == Last0(v, def.c.w)
Lift(b) == ZeroExt(b, 64)
Or(a, b) == [i \in 1..64 |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0]
And(a, b) == [i \in 1..64 |-> a[i] * b[i]]
Xor(a, b) == [i \in 1..64 |-> IF a[i] = b[i] THEN 0 ELSE 1]
Not(a) == LET w == W(a) IN Lift([i \in 1..def.c.w |-> 1 - w[i]])
IsSet(a, b) == And(a, b) = b
(* names of the items set, joined *)
SetItems(v) == SelectSeq([i \in 1..Len(def.vals) |-> i], LAMBDA i : IsSet(v, def.vals[i]))
Join(s) == FoldLeft(LAMBDA a, i : IF a = <<>> THEN def.names[i] ELSE a \o <<32, 124, 32>> \o def.names[i], <<>>, s)
NumBits(v) == IF IsZero(v) THEN 0
              ELSE LET m == Sub(v, NatBits(1, 64)) IN IF IsZero(m) THEN 1 ELSE SigLen(m)
=============================================================================
