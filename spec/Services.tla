------------------------------ MODULE Services ------------------------------
(* Data handed to and from services.  A slot holds an object to introspect,   *)
(* an object which was serialized, bytes of its own, or a window to bytes     *)
(* somewhere else.                                                            *)
EXTENDS Schema
CONSTANT Slots
VARIABLES sd, src      \* the slots; the bytes (as bits) which windows look at
Gone == <<>>
Bytewise(b) == b \o Zeros((8 - (Len(b) % 8)) % 8)
Item(k, t, v, b) == <<[k |-> k, t |-> t, v |-> v, b |-> b]>>
PutS(s, x) == sd' = [sd EXCEPT ![s] = x]
Fresh == sd' = [s \in Slots |-> Gone] /\ src' = <<>>
(* objects to introspect are taken as they are; to serialize one it has to be valid *)
MakeIntro(s, t, v) == PutS(s, Item("intro", t, v, <<>>)) /\ UNCHANGED src
MakeObject(s, t, v, ok) ==
    /\ ok = ValidObj(t, <<>>, v)
    /\ PutS(s, IF ok THEN Item("object", t, v, Bytewise(Bits(t, v))) ELSE Gone)
    /\ UNCHANGED src
MakeHold(s, b) == PutS(s, Item("hold", "", <<>>, b)) /\ UNCHANGED src
MakeView(s) == PutS(s, Item("view", "", <<>>, <<>>)) /\ UNCHANGED src
(* the bytes elsewhere change *)
Change(b) == src' = b /\ UNCHANGED sd
CopyS(s, t) == sd[s] # Gone /\ PutS(t, sd[s]) /\ UNCHANGED src
(* what is left of the source of a move is given up *)
MoveS(s, t) == sd[s] # Gone /\ sd' = [sd EXCEPT ![t] = sd[s], ![s] = Gone] /\ UNCHANGED src
DropS(s) == PutS(s, Gone) /\ UNCHANGED src
(* the bytes to be sent: those of the object, padded by zeros, or an exception *)
DataOf(x) == CASE x.k = "intro" -> IF ValidObj(x.t, <<>>, x.v) THEN Bytewise(Bits(x.t, x.v)) ELSE <<2>>
               [] x.k \in {"object", "hold"} -> x.b
               [] x.k = "view" -> src
=============================================================================
