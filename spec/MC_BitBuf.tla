------------------------------ MODULE MC_BitBuf -----------------------------
(* The order of the specification really is a strict total order (all buffers up to a length), and *)
(* the slot operations keep every buffer a bit sequence.                                           *)
EXTENDS BitBuf
CONSTANT MaxLen
Vals == UNION {[1..n -> {0, 1}] : n \in 0..MaxLen}
MCNext == \/ \E s \in Slots, b \in Vals : Construct(s, b)
          \/ \E s, t \in Slots : CopyTo(s, t) \/ MoveTo(s, t)
          \/ \E s \in Slots, i \in 1..MaxLen, b \in {0, 1} : SetBit(s, i, b)
MCSpec == Init /\ [][MCNext]_vars
Order == \A s, t \in Slots :
            /\ ~(LtB(val[s], val[t]) /\ LtB(val[t], val[s]))
            /\ (val[s] # val[t]) = (LtB(val[s], val[t]) \/ LtB(val[t], val[s]))
            /\ \A u \in Slots : LtB(val[s], val[t]) /\ LtB(val[t], val[u]) => LtB(val[s], val[u])
=============================================================================
