------------------------------ MODULE Message ------------------------------
(* Exception messages: bounded text, appended to in order.                   *)
EXTENDS NumText
CONSTANTS Slots, Capacity
VARIABLE msg
Cut(s) == SubSeq(s, 1, IF Len(s) > Capacity THEN Capacity ELSE Len(s))
Init == msg = [s \in Slots |-> <<>>]
Create(s, text) == msg' = [msg EXCEPT ![s] = Cut(text)]
AppendText(s, text) == msg' = [msg EXCEPT ![s] = Cut(@ \o text)]
CopyTo(s, d) == msg' = [msg EXCEPT ![d] = msg[s]]
(* what a reader of the message sees: a text ends at its first NUL *)
Seen(m) == LET z == SelectInSeq(m, LAMBDA c : c = 0) IN IF z = 0 THEN m ELSE SubSeq(m, 1, z - 1)
Bounded == \A s \in Slots : Len(msg[s]) <= Capacity
=============================================================================
