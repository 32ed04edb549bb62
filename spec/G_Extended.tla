----------------------------- MODULE G_Extended -----------------------------
(* The whole graph of two extended fields of kind KIND with small values.    *)
EXTENDS Extended, TLC, Json, IOUtils
VARIABLE op
gv == <<kind, xs, op>>
GInit == kind = IOEnv.KIND /\ xs = [s \in Slots |-> X(TRUE, Default(IOEnv.KIND), 0)] /\ op = <<>>
V == {<<0>>, <<7>>} \cup (IF kind = "opt" THEN {<<>>} ELSE {})
R == IF kind = "text" THEN {0, 1} ELSE {0}
N(v) == IF v = <<>> THEN -1 ELSE v[1]
(* the source of a move as this implementation leaves it; another one is only judged, not followed *)
Left(s) == {IF kind = "text" THEN [xs[s] EXCEPT !.v = <<0>>] ELSE xs[s]}
Do(name, s, t, r, v) == op' = <<name, s, t, r, v>>
GNext == \/ \E s \in Slots : \/ Make(s) /\ Do("Make", s, 0, 0, 0)
                             \/ \E v \in V : Value(s, v) /\ (\E h \in 0..3 : Do("Value", s, 0, h, N(v)))
                             \/ \E v \in V, r \in R : MakeV(s, v, r) /\ Do("MakeV", s, 0, r, N(v))
                             \/ \E b \in BOOLEAN : Present(s, b) /\ Do("Present", s, 0, 0, IF b THEN 1 ELSE 0)
         \/ \E s, t \in Slots : \/ CopyA(s, t) /\ Do("CopyA", s, t, 0, 0)
                                \/ UNCHANGED vars /\ Do("Cmp", s, t, 0, 0)
         \/ \E s, t \in Slots : s # t /\ \/ CopyC(s, t) /\ Do("CopyC", s, t, 0, 0)
                                         \/ \E r \in R : CopyCA(s, t, r) /\ Do("CopyCA", s, t, r, 0)
                                         \/ \E m \in Left(s) : \/ MoveC(s, t, m) /\ Do("MoveC", s, t, 0, 0)
                                                               \/ MoveA(s, t, m) /\ Do("MoveA", s, t, 0, 0)
                                                               \/ \E r \in R : MoveCA(s, t, r, m) /\ Do("MoveCA", s, t, r, 0)
GSpec == GInit /\ [][GNext]_gv
Flat(f) == [s \in Slots |-> <<f[s].p, N(f[s].v), f[s].r>>]
GView == Flat(xs)
Edge == PrintT(<<"EDGE", ToJson(Flat(xs)), ToJson(op'), ToJson(Flat(xs'))>>)
=============================================================================
