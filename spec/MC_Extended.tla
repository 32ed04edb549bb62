----------------------------- MODULE MC_Extended ----------------------------
(* Comparison is a total order on what is present, whatever the history.     *)
EXTENDS Extended
V == {<<0>>, <<1>>} \cup (IF kind = "opt" THEN {<<>>} ELSE {})
R == IF kind = "text" THEN {0, 1} ELSE {0}
Left(s) == {X(p, v, xs[s].r) : p \in BOOLEAN, v \in V}
MInit == \E k \in Kinds : kind = k /\ xs = [s \in Slots |-> X(TRUE, Default(k), 0)]
MNext == \/ \E s \in Slots : \/ Make(s) \/ \E v \in V : Value(s, v) \/ (\E r \in R : MakeV(s, v, r))
                             \/ \E b \in BOOLEAN : Present(s, b)
         \/ \E s, t \in Slots : \/ CopyA(s, t)
                                \/ s # t /\ (CopyC(s, t) \/ (\E r \in R : CopyCA(s, t, r))
                                             \/ (\E m \in Left(s) : MoveC(s, t, m) \/ MoveA(s, t, m) \/ (\E r \in R : MoveCA(s, t, r, m))))
MSpec == MInit /\ [][MNext]_vars
O(s, t) == Ord(xs[s], xs[t])
TotalOrder == \A s, t, u \in Slots : /\ O(s, t) = -O(t, s) /\ O(s, s) = 0
                                      /\ O(s, t) <= 0 /\ O(t, u) <= 0 => O(s, u) <= 0
AbsentEqual == \A s, t \in Slots : ~xs[s].p /\ ~xs[t].p => O(s, t) = 0
(* setting the value keeps the presence and the other way round *)
PresenceKept == [][\A s \in Slots : /\ \A v \in V : Value(s, v) => xs'[s].p = xs[s].p
                                     /\ \A b \in BOOLEAN : Present(s, b) => xs'[s].v = xs[s].v]_vars
(* a copy equals its source and leaves it alone *)
Indep == [][\A s, t \in Slots : s # t /\ CopyA(s, t) => xs'[s] = xs[s] /\ Ord(xs'[s], xs'[t]) = 0]_vars
ResourceHome == [][\A s \in Slots, v \in V : Value(s, v) => xs'[s].r = xs[s].r]_vars
=============================================================================
