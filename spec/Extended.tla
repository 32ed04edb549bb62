------------------------------ MODULE Extended ------------------------------
(* Extended fields: slots of presence, value and the memory resource of the  *)
(* value.  Values: <<>> (no value, only optional ones), <<n>>.               *)
EXTENDS Naturals, Integers, Sequences
CONSTANT Slots
VARIABLES kind, xs
vars == <<kind, xs>>
(* int: plain number; opt: optional number; text: a value with an allocator; all moved values are unspecified *)
Kinds == {"int", "opt", "text"}
Default(k) == IF k = "opt" THEN <<>> ELSE <<0>>
X(p, v, r) == [p |-> p, v |-> v, r |-> r]
Res(r) == IF kind = "text" THEN r ELSE 0
Start(k) == kind' = k /\ xs' = [s \in Slots |-> X(TRUE, Default(k), 0)]
Put(s, x) == xs' = [xs EXCEPT ![s] = x] /\ UNCHANGED kind
(* --- construction *)
Make(s) == Put(s, X(TRUE, Default(kind), 0))
MakeV(s, v, r) == Put(s, X(TRUE, v, Res(r)))
CopyC(s, t) == Put(t, [xs[s] EXCEPT !.r = 0])            \* copies go to the default resource
CopyCA(s, t, r) == Put(t, [xs[s] EXCEPT !.r = Res(r)])
(* what is left in the source of a move is free, but for the resource *)
Rest(s, left) == left.r = xs[s].r
MoveC(s, t, left) == Rest(s, left) /\ xs' = [xs EXCEPT ![t] = xs[s], ![s] = left] /\ UNCHANGED kind
MoveCA(s, t, r, left) == Rest(s, left) /\ xs' = [xs EXCEPT ![t] = [xs[s] EXCEPT !.r = Res(r)], ![s] = left] /\ UNCHANGED kind
(* --- assignment: resources stay *)
CopyA(s, t) == IF s = t THEN UNCHANGED vars ELSE Put(t, [xs[s] EXCEPT !.r = xs[t].r])
MoveA(s, t, left) == Rest(s, left) /\ xs' = [xs EXCEPT ![t] = [xs[s] EXCEPT !.r = xs[t].r], ![s] = left] /\ UNCHANGED kind
(* --- presence and value are independent *)
Present(s, b) == Put(s, [xs[s] EXCEPT !.p = b])
Value(s, v) == Put(s, [xs[s] EXCEPT !.v = v])
(* --- observed *)
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
ValOrd(v, w) == IF v = <<>> \/ w = <<>> THEN Sgn(Len(v), Len(w)) ELSE Sgn(v[1], w[1])
Ord(x, y) == IF x.p /\ y.p THEN ValOrd(x.v, y.v) ELSE Sgn(IF x.p THEN 1 ELSE 0, IF y.p THEN 1 ELSE 0)
Rel(o) == <<o = 0, o # 0, o < 0, o > 0, o <= 0, o >= 0>>
=============================================================================
