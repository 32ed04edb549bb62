------------------------------ MODULE T_Object -----------------------------
(* Objects serialized, deserialized and compared. *)
EXTENDS Schema, TraceBase
VARIABLE slots         \* objects kept for comparisons: type, arguments, value
TInit == l = 1 /\ slots = [i \in 0..3 |-> [t |-> "u8", a |-> <<>>, v |-> None]]
Pad8(b) == b \o Zeros((8 - (Len(b) % 8)) % 8)
(* an object is written: at bit position Line.pos (only low level writes), else from the start *)
TSer == /\ IsEvent("Ser") /\ UNCHANGED slots
        /\ LET ok == ValidObj(Line.t, Line.a, Line.v)
               bits == Bits(Line.t, Line.v) IN
           /\ Line.ok = ok
           /\ IF ~ok THEN Line.touched = FALSE
              ELSE /\ Line.size = Len(bits)
                   /\ CASE Line.how \in {"buffer", "write"} -> Line.bits = bits
                        [] Line.how \in {"bytes", "file"} -> Line.bits = Pad8(bits)
TDe == /\ IsEvent("De") /\ UNCHANGED slots
       /\ LET r == Dec(Line.t, Line.a, Line.bits, 0) IN
          /\ Line.ok = r.ok
          /\ r.ok => /\ Line.v = r.v
                     /\ Line.p = -1 \/ Line.p = r.p
                     /\ Line.va = Line.a /\ Line.eq
                     /\ Line.again = (IF ValidObj(Line.t, Line.a, r.v) THEN Bits(Line.t, r.v) ELSE <<2>>)
(* a kept object *)
TKeep == /\ IsEvent("Keep")
         /\ slots' = [slots EXCEPT ![Line.s] = [t |-> Line.t, a |-> Line.a, v |-> Line.v]]
TEnd == IsEvent("End") /\ UNCHANGED slots
(* two objects and their views are compared *)
TCmp == /\ IsEvent("Cmp") /\ UNCHANGED slots
        /\ LET x == slots[Line.x] y == slots[Line.y]
               o == Ord(x.t, FALSE, <<>>, <<>>, x.v, y.v)
               w == Ord(x.t, TRUE, x.a, y.a, x.v, y.v) IN
           /\ Line.rel = Rel(o)
           /\ Line.view => Line.vrel = Rel(w)
           /\ o = 0 => Line.hx = Line.hy
           /\ Line.view /\ w = 0 => Line.vhx = Line.vhy
(* built-in values, plain or in a container of at most one; floats compare as numbers *)
Neg(b) == b[1] = 1
Mag(b) == Tail(b)
FloatOrd(a, b) == CASE a = b \/ (IsZero(Mag(a)) /\ IsZero(Mag(b))) -> 0
                    [] Neg(a) /\ ~Neg(b) -> -1
                    [] ~Neg(a) /\ Neg(b) -> 1
                    [] OTHER -> IF LtU(Mag(a), Mag(b)) = Neg(a) THEN 1 ELSE -1
IsNaN(b) == IF Len(b) = 32 THEN IsNaNSingle(b) ELSE IsNaNDouble(b)
TPrim == /\ IsEvent("Prim") /\ UNCHANGED slots
         /\ LET both == Set(Line.x) /\ Set(Line.y)
                fl == Line.t \in {"f32", "f64"}
                nan == both /\ fl /\ (IsNaN(Line.x[2]) \/ IsNaN(Line.y[2]))
                o == IF ~both THEN Sign(IF Set(Line.x) THEN 1 ELSE 0, IF Set(Line.y) THEN 1 ELSE 0)
                     ELSE IF fl THEN FloatOrd(Line.x[2], Line.y[2]) ELSE Ord(Line.t, FALSE, <<>>, <<>>, Line.x, Line.y)
            IN IF nan THEN Line.rel[1] = FALSE /\ Line.rel[2] /\ Line.rel[3] = FALSE /\ Line.rel[5] = FALSE
               ELSE Line.rel = Rel(o) /\ (o = 0 => Line.hx = Line.hy)
TNext == TPrim \/ TSer \/ TDe \/ TKeep \/ TCmp \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, slots>>
=============================================================================
