----------------------------- MODULE T_Window ------------------------------
EXTENDS Window, TraceBase
TInit == l = 1 /\ Init
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
(* everything that can be observed of span slot s *)
SpanSeen(o, s) ==
    LET w == win'[s] e == SubSeq(base', w.lo + 1, w.hi) IN
    /\ o.size = Size(w) /\ o.bytes = o.esz * Size(w) /\ o.empty = (Size(w) = 0)
    /\ (Len(base') = 0 \/ o.off = w.lo)
    /\ o.idx = e /\ o.fwd = e /\ o.rev = Rev(e) /\ o.dist = Len(e)
    /\ o.fb = (IF e = <<>> THEN <<>> ELSE <<e[1], e[Len(e)]>>)
(* element i of the view with its parameter *)
Bits(i) == Line.pb + (i % Line.pp)
Elem(i) == <<base[view.lo + i + 1], Bits(i)>>
At(i) == IF i >= 0 /\ i < Size(view) THEN Elem(i) ELSE <<>>
ViewElems == [i \in 1..Size(view) |-> Elem(i - 1)]
TBase == IsEvent("Base") /\ NewBase(Line.v) /\ (\A s \in Slots : SpanSeen(Line, s))
TDerive == IsEvent("Derive") /\ Derive(Line.s, Line.d, Line.k, Line.o, Line.n) /\ (SpanSeen(Line, Line.d) = TRUE)
TAssign == IsEvent("Assign") /\ Assign(Line.s, Line.i, Line.v) /\ Line.all = base'
TView == IsEvent("View") /\ SetView(Line.s) /\ Line.size = Size(view') /\ Line.empty = (Size(view') = 0)
TAll == IsEvent("All") /\ UNCHANGED vars
        /\ Line.fwd = ViewElems /\ Line.rev = Rev(ViewElems) /\ Line.idx = ViewElems /\ Line.jump = ViewElems
        /\ Line.front = At(0) /\ Line.back = At(Size(view) - 1)
TAt == IsEvent("At") /\ UNCHANGED vars /\ Line.r = At(Line.i)
Moves == [inc |-> 1, dec |-> -1, pinc |-> 1, pdec |-> -1]
TMove == /\ IsEvent("Move")
         /\ LET by == IF Line.k = "inc" \/ Line.k = "pinc" THEN 1 ELSE IF Line.k = "dec" \/ Line.k = "pdec" THEN -1 ELSE Line.by IN
            /\ Move(Line.s, Line.d, by)
            /\ LET p == its[Line.s] q == its[Line.s] + by IN
               /\ Line.star = At(q) /\ Line.arrow = At(q)
               /\ Line.ret = (IF Line.k \in {"pinc", "pdec"} THEN p ELSE q)      \* position of the returned iterator
               /\ Line.sub = At(q + Line.j)
TCmp == /\ IsEvent("Cmp") /\ UNCHANGED vars
        /\ LET p == its[Line.s] q == its[Line.d] IN
           /\ Line.diff = p - q
           /\ Line.rel = <<p = q, p # q, p < q, p <= q, p > q, p >= q>>
TEnd == IsEvent("End") /\ UNCHANGED vars
TNext == TBase \/ TDerive \/ TAssign \/ TView \/ TAll \/ TAt \/ TMove \/ TCmp \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================
