---------------------------- MODULE MC_Message -----------------------------
(* small capacity: bounded, append-only, copies independent *)
EXTENDS Message
Texts == {<<>>, <<97>>, <<98, 99>>, <<0, 97>>}
Next == \E s \in Slots : \/ \E t \in Texts : Create(s, t) \/ AppendText(s, t)
                         \/ \E d \in Slots : CopyTo(s, d)
Spec == Init /\ [][Next]_msg
IsPrefix0(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OnlyOne == [][\E s \in Slots : \A d \in Slots \ {s} : msg'[d] = msg[d]]_msg
AppendOnly == [][\A s \in Slots : (\E t \in Texts : AppendText(s, t)) => IsPrefix0(msg[s], msg'[s])]_msg
=============================================================================
