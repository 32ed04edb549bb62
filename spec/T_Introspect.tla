---------------------------- MODULE T_Introspect ----------------------------
EXTENDS Introspect, TraceBase
tv == <<l, ivars>>
TInit == l = 1 /\ Idle0 /\ seen = [t |-> "u8", ps |-> <<>>, v |-> <<"i", Zero(8)>>]
TRoot == IsEvent("Root") /\ Show(Line.t, Line.ps, Line.v)
TLook == /\ IsEvent("Look") /\ UNCHANGED ivars
         /\ LET nd == Reach(Line.p) IN Line.how = nd.how /\ Line.r = (IF nd.how = "here" THEN <<Look(nd)>> ELSE <<>>)
TScalar == /\ IsEvent("Scalar") /\ UNCHANGED ivars
           /\ Line.acc = AccOf(Line.k, Line.sw, Line.sg, Line.v) /\ Line.any = Line.v
(* an array of built-in values: every element, nothing beyond *)
TArray == IsEvent("Array") /\ UNCHANGED ivars /\ Line.seen = Line.v /\ Line.size = Len(Line.v) /\ Line.beyond = "refused"
(* everything is allocated by the given allocator *)
TAlloc == IsEvent("Alloc") /\ UNCHANGED ivars /\ Line.elsewhere = 0 /\ Line.leaked = 0
TEnd == IsEvent("End") /\ UNCHANGED ivars
TNext == TRoot \/ TLook \/ TScalar \/ TArray \/ TAlloc \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
