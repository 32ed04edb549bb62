----------------------------- MODULE T_Wrappers -----------------------------
EXTENDS Wrappers, TraceBase
tv == <<cur, sgn, l>>
TInit == l = 1 /\ cur = <<0>> /\ sgn = FALSE
TStart == IsEvent("Start") /\ Start(Line.v, Line.sg) /\ Line.got = Line.v
TOp == /\ IsEvent("Op") /\ Do(Line.op, Line.b)
       /\ LET r == Apply(Line.op, cur, Line.b, sgn) IN
          /\ Line.r = r /\ Line.ret = Returned(Line.op, cur, r)
          \* an assignment returns the wrapper itself, so that it can be chained
          /\ Line.op \in {"post++", "post--"} \/ Line.self
TCmp == /\ IsEvent("Cmp") /\ UNCHANGED <<cur, sgn>>
        /\ Line.rel = Relations(Order(cur, Line.b, sgn))
        /\ cur = Line.b => Line.hx = Line.hy
(* floats: whole numbers, given as bits of an integer *)
TFloat == IsEvent("Float") /\ UNCHANGED <<cur, sgn>> /\ Line.r = Apply(Line.op, Line.a, Line.b, TRUE) /\ Line.ret = Line.r /\ Line.self
TFLim == IsEvent("FLim") /\ UNCHANGED <<cur, sgn>> /\ Line.min = FloatMin(Line.k) /\ Line.max = FloatMax(Line.k)
TBLim == IsEvent("BLim") /\ UNCHANGED <<cur, sgn>> /\ ~Line.min /\ Line.max
TSame == IsEvent("Same") /\ UNCHANGED <<cur, sgn>> /\ Line.from = Line.v /\ Line.to = Line.v
TField == /\ IsEvent("Field") /\ UNCHANGED <<cur, sgn>>
          /\ IF Line.n < 1 \/ Line.n > 64 THEN ~Line.lok /\ ~Line.hok
             ELSE LET k == IF Line.sg THEN "ds" ELSE "du" IN Line.lok /\ Line.hok /\ Line.lo = MinOf(k, Line.n) /\ Line.hi = MaxOf(k, Line.n)
(* dynamic bit fields with their number of bits *)
TDyn == /\ IsEvent("Dyn") /\ UNCHANGED <<cur, sgn>>
        /\ LET k == IF Line.sg THEN "ds" ELSE "du"
               o == FieldOrder(Line.n1, Line.a, Line.n2, Line.b, Line.sg) IN
           /\ Line.rel = Relations(o)
           /\ o = 0 => Line.hx = Line.hy
           /\ Line.get = <<Line.n1, Line.a>>
           /\ Line.size = Line.n1
           /\ Line.valid = InRange(k, Line.n1, Line.a)
           /\ Line.wrote = InRange(k, Line.n1, Line.a)
           /\ Line.bits = IF Line.wrote THEN Last0(Line.a, Line.n1) ELSE <<>>
TSize == /\ IsEvent("Size") /\ UNCHANGED <<cur, sgn>>
         /\ Line.ok32 = FitsU(Line.v, 32)
         /\ Line.r32 = IF Line.ok32 THEN Line.v ELSE <<>>
         /\ Line.rsz = Line.v
TEnd == IsEvent("End") /\ UNCHANGED <<cur, sgn>>
TNext == TStart \/ TOp \/ TCmp \/ TFloat \/ TFLim \/ TBLim \/ TSame \/ TField \/ TDyn \/ TSize \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
