---------------------------- MODULE ObjectMemory ----------------------------
(* Generated objects and the memory resources they live in: slot -> resource of the object in it (-1: none). *)
(* A resource without objects has no blocks: everything an object needs comes from its own resource.          *)
EXTENDS Naturals, Integers, FiniteSets
CONSTANTS Slots, Resources
VARIABLES res, prop      \* prop: the allocator propagates (and is kept by copy construction)
vars == <<res, prop>>
Init == res = [s \in Slots |-> -1] /\ prop \in BOOLEAN
Has(s) == res[s] # -1
Place(s, r) == res' = [res EXCEPT ![s] = r] /\ UNCHANGED prop
Start(p) == res' = [s \in Slots |-> -1] /\ prop' = p
New(s, r) == Place(s, r)
Drop(s) == Place(s, -1)
Refill(s) == Has(s) /\ UNCHANGED vars
CopyC(s, t) == Has(s) /\ Place(t, IF prop THEN res[s] ELSE 0)
CopyCA(s, t, r) == Has(s) /\ Place(t, r)
(* the object constructed from a source that is replaced by the result *)
MoveC(s, t) == Has(s) /\ Place(t, res[s])
MoveCA(s, t, r) == Has(s) /\ Place(t, r)
CopyA(s, t) == Has(s) /\ Has(t) /\ Place(t, IF prop THEN res[s] ELSE res[t])
MoveA(s, t) == CopyA(s, t)
Unused(r) == \A s \in Slots : res[s] # r
=============================================================================
