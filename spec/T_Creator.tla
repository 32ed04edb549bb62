------------------------------ MODULE T_Creator ------------------------------
EXTENDS Creator, TraceBase
tv == <<l, vars>>
TInit == l = 1 /\ Init("u8")
TRoot == IsEvent("Root") /\ root' = Line.t /\ stack' = <<>>
TCall == /\ IsEvent("Call") /\ Call(Line.op, Line.n, Line.v)
         /\ LET eff == Effect(Line.op, Line.n, Line.v) IN
            /\ Line.ok = eff.ok
            /\ eff.ok /\ Line.op = "endRoot" => Line.res = Top.v /\ Line.refl = Top.v
            /\ eff.ok /\ Line.op \in {"getFieldType", "getElementType"} => Line.res = Asked(Line.op, Line.n)
TEnd == IsEvent("End") /\ UNCHANGED vars
TNext == TRoot \/ TCall \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
