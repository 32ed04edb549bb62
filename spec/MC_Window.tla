----------------------------- MODULE MC_Window -----------------------------
EXTENDS Window
Next == \/ \E s, d \in Slots, k \in {"copy", "first", "last", "sub"}, o \in 0..4, n \in -1..4 :
              (k \in {"first", "last"} => n >= 0) /\ Derive(s, d, k, o, n)
        \/ \E s \in Slots : SetView(s)
        \/ \E s, d \in Slots, by \in -4..4 : Move(s, d, by)
MCInit == base = <<1, 2, 3, 4>> /\ win = [s \in Slots |-> Whole] /\ view = Whole /\ its = [s \in Slots |-> 0]
MCSpec == MCInit /\ [][Next]_vars
(* every element reached through a window is the element of the sequence at that place *)
Addressed == /\ Inside
             /\ \A s \in Slots : Len(Elems(win[s])) = Size(win[s])
             /\ \A s \in Slots : its[s] >= 0 /\ its[s] <= Size(view)
=============================================================================
