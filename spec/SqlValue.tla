------------------------------ MODULE SqlValue -----------------------------
(* Values stored in the columns of a table and read back.  A column has one  *)
(* of the four storage classes; every type belongs to exactly one of them.   *)
EXTENDS Schema
VARIABLE tab          \* row -> column (1..4) -> what was stored: cell, and the type, value and arguments it came from
Null == <<"null">>
Nothing == [cell |-> Null, t |-> "", v |-> None, a |-> <<>>]
ClassNames == <<"INTEGER", "REAL", "TEXT", "BLOB">>
ClassCodes == <<1, 2, 3, 4>>
IsObject(t) == t \in Names /\ Compound(t)
Column(t) == CASE t \in {"Float16", "Float32", "Float64"} -> 2 [] t = "String" -> 3 [] IsObject(t) -> 4 [] OTHER -> 1
(* a single precision number as a double *)
Widen(f) ==
    LET sg == f[1] ex == BitsNat(SubSeq(f, 2, 9)) fr == SubSeq(f, 10, 32) p == FirstOne(fr) IN
    CASE ex = 255 -> <<sg>> \o Ones(11) \o fr \o Zeros(29)
      [] ex = 0 /\ p = 0 -> <<sg>> \o Zeros(63)
      [] ex = 0 -> <<sg>> \o NatBits(897 - p, 11) \o SubSeq(fr, p + 1, 23) \o Zeros(29 + p)
      [] OTHER -> <<sg>> \o NatBits(ex + 896, 11) \o fr \o Zeros(29)
PadBytes(b) == b \o Zeros((8 - (Len(b) % 8)) % 8)
Real(d) == IF IsNaNDouble(d) THEN Null ELSE <<"real", d>>       \* SQLite knows no NaN
Cell(t, v) == CASE v[1] = "i" -> <<"int", v[2]>>
                [] v[1] = "f" -> Real(Widen(v[2]))
                [] v[1] = "d" -> Real(v[2])
                [] v[1] = "s" -> <<"text", v[2]>>
                [] OTHER -> <<"blob", Bytes8(PadBytes(Bits(t, v)))>>
SameNumber(x, y) == x = y \/ (IsZero(Tail(x)) /\ IsZero(Tail(y)))
SameCell(x, y) == x[1] = y[1] /\ (IF x[1] = "real" THEN SameNumber(x[2], y[2]) ELSE x = y)
SameValue(x, y) == x[1] = y[1] /\ (IF x[1] \in {"f", "d"} THEN SameNumber(x[2], y[2]) ELSE x = y)
Storable(t, a, v) == IF IsObject(t) THEN ValidObj(t, a, v) ELSE TRUE
Fresh(n) == [r \in 1..n |-> [c \in 1..4 |-> Nothing]]
Put(r, t, a, v, ok) ==
    /\ ok = Storable(t, a, v)
    /\ tab' = IF ok THEN [tab EXCEPT ![r][Column(t)] = [cell |-> Cell(t, v), t |-> t, v |-> v, a |-> a]] ELSE tab
PutNull(r, c) == tab' = [tab EXCEPT ![r][c] = Nothing]
(* what was stored as a value of the type is read as that value; nothing is read from an empty cell *)
Get(r, t, ok, v) ==
    /\ UNCHANGED tab
    /\ LET x == tab[r][Column(t)] IN
       IF x.cell = Null THEN ok /\ v = None
       ELSE x.t = t => ok /\ SameValue(v, x.v)
=============================================================================
