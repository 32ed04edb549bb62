--------------------------- MODULE T_ObjectMemory ---------------------------
EXTENDS ObjectMemory, TraceBase
tv == <<res, prop, l>>
TInit == res = [s \in Slots |-> -1] /\ prop = FALSE /\ l = 1
Agrees == /\ Line.bad = 0 /\ \A r \in Resources : Unused(r)' => Line.blk[r + 1] = 0
s == Line.s
t == Line.t
Op(e) == IsEvent(e) /\ Line.eq
TNext == \/ IsEvent("Begin") /\ Start(Line.prop) /\ (Agrees = TRUE)
         \/ Op("New") /\ New(s, Line.r) /\ (Agrees = TRUE)
         \/ Op("Drop") /\ Drop(s) /\ (Agrees = TRUE)
         \/ Op("Refill") /\ Refill(s) /\ (Agrees = TRUE)
         \/ Op("Read") /\ Has(s) /\ Place(t, Line.r) /\ (Agrees = TRUE)
         \/ Op("CopyC") /\ CopyC(s, t) /\ (Agrees = TRUE)
         \/ Op("CopyCA") /\ CopyCA(s, t, Line.r) /\ (Agrees = TRUE)
         \/ Op("MoveC") /\ MoveC(s, t) /\ (Agrees = TRUE)
         \/ Op("MoveCA") /\ MoveCA(s, t, Line.r) /\ (Agrees = TRUE)
         \/ Op("CopyA") /\ CopyA(s, t) /\ (Agrees = TRUE)
         \/ Op("MoveA") /\ MoveA(s, t) /\ (Agrees = TRUE)
         \/ IsEvent("Gone") /\ (Line.bad = 0 /\ Line.blk = <<0, 0, 0>>) /\ UNCHANGED vars
         \/ IsEvent("End") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tv
=============================================================================
