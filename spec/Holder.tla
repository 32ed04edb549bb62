------------------------------- MODULE Holder -------------------------------
(* Optional, Variant, Any and UniquePtr as slots of one machine.                                       *)
(* A slot is [r |-> memory resource, k |-> type of the value (0: none), v |-> value]; a value which has *)
(* been moved away is -1.  cfg describes the container and what its allocator propagates.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Slots
VARIABLES cfg, sl
vars == <<cfg, sl>>
Kinds(c) == CASE c = "optS" -> {1} [] c = "optB" -> {2} [] c = "optT" -> {3} [] c = "optR" -> {5}
              [] c = "uptr" -> {2} [] OTHER -> {1, 2, 3, 4}
IsOpt(c) == c \in {"optS", "optB", "optT", "optR"}
(* which values live in a block of their own *)
OnHeap(c, k) == CASE IsOpt(c) -> k \in {2, 5} [] c = "uptr" -> k = 2 [] OTHER -> k \in {2, 3, 4}
Empty(r) == [r |-> r, k |-> 0, v |-> 0]
Fresh(r) == IF cfg.c = "var" THEN [r |-> r, k |-> 1, v |-> 0] ELSE Empty(r)
Engaged(x) == x.k # 0
Res(r) == IF cfg.st THEN r ELSE 0
Sel(r) == IF cfg.sel THEN r ELSE 0
CopyRes(s, t) == IF cfg.ca THEN sl[s].r ELSE sl[t].r
MoveRes(s, t) == IF cfg.ma \/ cfg.c = "uptr" THEN sl[s].r ELSE sl[t].r
Val(r, x) == [r |-> r, k |-> x.k, v |-> x.v]
(* what a source may be after its value was moved away *)
Moved(x) == IF Engaged(x) THEN {Empty(x.r), [x EXCEPT !.v = -1]} ELSE {x}
Set(t, x) == sl' = [sl EXCEPT ![t] = x] /\ UNCHANGED cfg
Two(s, x, t, y) == sl' = [sl EXCEPT ![s] = x, ![t] = y] /\ UNCHANGED cfg
Same == UNCHANGED vars

Start(c) == cfg' = c /\ sl' = [s \in Slots |-> IF c.c = "var" THEN [r |-> 0, k |-> 1, v |-> 0] ELSE Empty(0)]
(* --- constructions; a failed one leaves everything as it was *)
Ctor(s, r) == Set(s, Fresh(Res(r)))
CtorV(s, r, k, v) == k \in Kinds(cfg.c) /\ Set(s, [r |-> Res(r), k |-> k, v |-> v])
CopyC(s, t) == Set(t, Val(Sel(sl[s].r), sl[s]))
CopyCA(s, t, r) == Set(t, Val(Res(r), sl[s]))
MoveC(s, t) == IF s = t THEN Same ELSE \E m \in Moved(sl[s]) : Two(s, m, t, sl[s])
MoveCA(s, t, r) == IF s = t THEN Set(s, Val(Res(r), sl[s]))
                   ELSE \E m \in Moved(sl[s]) : Two(s, m, t, Val(Res(r), sl[s]))
(* --- assignments; a failed one leaves the target as it was or empty *)
CopyA(s, t) == IF s = t THEN Same ELSE Set(t, Val(CopyRes(s, t), sl[s]))
CopyAFail(s, t) == Same \/ \E r \in {sl[t].r, CopyRes(s, t)} : Set(t, Empty(r))
MoveA(s, t) == IF s = t THEN Same ELSE \E m \in Moved(sl[s]) : Two(s, m, t, Val(MoveRes(s, t), sl[s]))
MoveAFail(s, t) == \/ Same
                   \/ s # t /\ \E m \in {sl[s]} \cup Moved(sl[s]), r \in {sl[t].r, MoveRes(s, t)} : Two(s, m, t, Empty(r))
SetV(s, k, v) == k \in Kinds(cfg.c) /\ Set(s, [sl[s] EXCEPT !.k = k, !.v = v])
SetFail(s) == Same \/ Set(s, Empty(sl[s].r))
Reset(s) == Set(s, Empty(sl[s].r))
(* assigned from its own value *)
Alias(s) == IF cfg.c = "any" THEN \E v \in {sl[s].v, -1} : Set(s, [sl[s] EXCEPT !.v = v]) ELSE Same
(* optional assigned from an optional of another type; v = -1: from an empty one *)
Conv(s, how, v, r) ==
    LET q == IF (IF how % 2 = 1 THEN cfg.ma ELSE cfg.ca) THEN Res(r) ELSE sl[s].r
    IN IF v = -1 THEN Set(s, Empty(q)) ELSE \E k \in Kinds(cfg.c) : Set(s, [r |-> q, k |-> k, v |-> v])
ConvFail(s, r) == Same \/ \E q \in {sl[s].r, Res(r)} : Set(s, Empty(q))
SwapRes(s, t) == IF cfg.sw \/ cfg.c = "uptr" THEN sl[t].r ELSE sl[s].r
Swap(s, t) == IF s = t THEN Same ELSE Two(s, Val(SwapRes(s, t), sl[t]), t, Val(SwapRes(t, s), sl[s]))
(* values may be lost when a swap across resources fails, but nothing else appears and nothing is duplicated *)
Left(p, x, moved) == IF ~Engaged(x) THEN Empty(p) ELSE [r |-> p, k |-> x.k, v |-> IF moved THEN -1 ELSE x.v]
SwapFail(s, t) ==
    \E p, q \in {sl[s].r, sl[t].r}, a, b \in {s, t, -1}, ma, mb \in BOOLEAN :
        /\ (a = b /\ a # -1) => (ma \/ mb)
        /\ Two(s, IF a = -1 THEN Empty(p) ELSE Left(p, sl[a], ma), t, IF b = -1 THEN Empty(q) ELSE Left(q, sl[b], mb))
-----------------------------------------------------------------------------
(* what can be observed *)
Live == Cardinality({s \in Slots : Engaged(sl[s])})
Blocks(r) == Cardinality({s \in Slots : sl[s].r = r /\ OnHeap(cfg.c, sl[s].k)})
BoolInt(b) == IF b THEN 1 ELSE 0
NoVal == -2
Key(x) == IF Engaged(x) THEN x.v ELSE -100     \* empty is smaller than any value
Rel(a, b) == <<BoolInt(a = b), BoolInt(a # b), BoolInt(a < b), BoolInt(a > b), BoolInt(a <= b), BoolInt(a >= b)>>
RelVar(x, y) == IF x.k = y.k THEN Rel(Key(x), Key(y)) ELSE Rel(x.k, y.k)
=============================================================================
