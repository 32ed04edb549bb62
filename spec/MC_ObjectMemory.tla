-------------------------- MODULE MC_ObjectMemory ---------------------------
(* All histories of a few objects: without propagation the resource of an object changes only when it is constructed anew. *)
EXTENDS ObjectMemory
VARIABLE op
MCInit == Init /\ op = "none"
MCNext == \E s, t \in Slots, r \in Resources :
            \/ New(s, r) /\ op' = "New"
            \/ Drop(s) /\ op' = "Drop"
            \/ Refill(s) /\ op' = "Refill"
            \/ CopyC(s, t) /\ op' = "CopyC"
            \/ CopyCA(s, t, r) /\ op' = "CopyCA"
            \/ MoveC(s, t) /\ op' = "MoveC"
            \/ MoveCA(s, t, r) /\ op' = "MoveCA"
            \/ CopyA(s, t) /\ op' = "CopyA"
            \/ MoveA(s, t) /\ op' = "MoveA"
MCSpec == MCInit /\ [][MCNext]_<<vars, op>>
Fixed == [][(~prop /\ op' \in {"CopyA", "MoveA", "Refill"}) => res' = res]_<<vars, op>>
TypeOk == \A s \in Slots : res[s] \in Resources \cup {-1}
=============================================================================
