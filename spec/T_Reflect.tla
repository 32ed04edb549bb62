------------------------------ MODULE T_Reflect ------------------------------
EXTENDS Reflect, TraceBase
VARIABLE other \* a second object to compare with
tv == <<l, rvars, other>>
TInit == l = 1 /\ Start("u8", FALSE, None) /\ other = [t |-> "u8", v |-> None]
TRoot == IsEvent("Root") /\ root' = Line.t /\ stack' = <<>> /\ cons' = Line.cons /\ val' = Line.v /\ other' = other
TFresh == IsEvent("Fresh") /\ root' = Line.t /\ stack' = <<>> /\ cons' = FALSE /\ val' = Default(Line.t) /\ Line.v = Default(Line.t) /\ other' = other
TOther == IsEvent("Other") /\ other' = [t |-> Line.t, v |-> Line.v] /\ UNCHANGED rvars
TCall ==
    /\ IsEvent("Call") /\ Do(Line.p, Line.op, Line.a, Line.forced) /\ UNCHANGED other
    /\ LET o == Outcome(Line.p, Line.op, Line.a, Line.forced) IN
       /\ Line.how = o.how
       /\ Line.now = o.v
       /\ o.how = "done" => IF o.r.how = "here" THEN Line.r = <<Seen(o.r)>> ELSE Line.r = <<>>
TSee == /\ IsEvent("See") /\ UNCHANGED <<rvars, other>>
        /\ LET nd == Locate(root, val, Line.p) IN
           /\ Line.how = nd.how
           /\ nd.how = "here" => Line.r = <<Seen(nd)>>
TEqual == /\ IsEvent("Equal") /\ UNCHANGED <<rvars, other>>
          /\ Line.res = Same(Locate(root, val, Line.p), Locate(other.t, other.v, Line.q))
TScalar == /\ IsEvent("Scalar") /\ UNCHANGED <<rvars, other>>
           /\ Line.acc = AccOf(Line.k, Line.sw, Line.sg, Line.v) /\ Line.any = Line.v
TClose == IsEvent("Close") /\ UNCHANGED <<rvars, other>> /\ Line.res \in Close(Line.x, Line.y)
TEnd == IsEvent("End") /\ UNCHANGED <<rvars, other>>
TNext == TRoot \/ TFresh \/ TOther \/ TCall \/ TSee \/ TEqual \/ TScalar \/ TClose \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
