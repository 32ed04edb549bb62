----------------------------- MODULE T_DataView -----------------------------
EXTENDS DataViews, TraceBase
tv == <<dv, l>>
TInit == l = 1 /\ dv = [s \in Slots |-> Nothing]
S0 == Line.s
T0 == Line.t
TLook == /\ IsEvent("Look") /\ UNCHANGED dv
         /\ IF dv[S0] = Nothing THEN Line.there = FALSE
            ELSE LET x == dv[S0][1] IN
                 /\ Line.there /\ Line.ps = x.ps /\ Line.v = x.v /\ Line.tree = x.v
                 /\ \A b \in Range(Line.bits) : b = Written(x)
(* the view and its data can be compared with other views *)
TCmp == /\ IsEvent("Cmp") /\ UNCHANGED dv
        /\ dv[S0] # Nothing /\ dv[T0] # Nothing
        /\ LET x == dv[S0][1] y == dv[T0][1] o == Ord(x.t, TRUE, x.ps, y.ps, x.v, y.v) IN
           /\ Line.rel = Rel(o) /\ (o = 0 => Line.hx = Line.hy)
TNext == \/ IsEvent("Begin") /\ Clear
         \/ IsEvent("Build") /\ Build(S0, Line.k, Line.ps, Line.v, Line.ok)
         \/ IsEvent("Read") /\ Read(S0, Line.k, Line.ps, Line.bits, Line.ok)
         \/ IsEvent("Copy") /\ Copy(S0, T0)
         \/ IsEvent("Move") /\ Move(S0, T0)
         \/ IsEvent("Drop") /\ Drop(S0)
         \/ IsEvent("End") /\ UNCHANGED dv
         \/ TLook \/ TCmp
TSpec == TInit /\ [][TNext]_tv
=============================================================================
