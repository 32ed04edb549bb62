------------------------------ MODULE DataViews -----------------------------
(* Views which own their data: slots of type, parameters and value.          *)
EXTENDS Schema
CONSTANT Slots
VARIABLES dv      \* <<>> where there is none
Nothing == <<>>
Owned(t, ps, v) == <<[t |-> t, ps |-> ps, v |-> v]>>
Clear == dv' = [s \in Slots |-> Nothing]
Put(s, x) == dv' = [dv EXCEPT ![s] = x]
(* building from data needs valid data; from bits, bits which decode *)
Build(s, t, ps, v, ok) == ok = ValidObj(t, ps, v) /\ IF ok THEN Put(s, Owned(t, ps, v)) ELSE Put(s, Nothing)
Read(s, t, ps, bits, ok) == LET r == Dec(t, ps, bits, 0) IN ok = r.ok /\ IF ok THEN Put(s, Owned(t, ps, r.v)) ELSE Put(s, Nothing)
Copy(s, t) == dv[s] # Nothing /\ Put(t, dv[s])
(* the source of a move is given up *)
Move(s, t) == dv[s] # Nothing /\ dv' = [dv EXCEPT ![t] = dv[s], ![s] = Nothing]
Drop(s) == Put(s, Nothing)
(* bits are written if the data is valid; data which was read may be invalid *)
Written(x) == IF ValidObj(x.t, x.ps, x.v) THEN Bits(x.t, x.v) ELSE <<2>>
=============================================================================
