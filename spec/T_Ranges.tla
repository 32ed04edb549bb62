------------------------------ MODULE T_Ranges ------------------------------
EXTENDS Ranges, TraceBase
TInit == l = 1
DynKinds == {"ds", "du"}
LimOk(e) ==
    IF e.k \in DynKinds /\ (e.n < 1 \/ e.n > e.w) THEN ~e.ok
    ELSE e.ok /\ e.min = MinOf(e.k, e.n) /\ e.max = MaxOf(e.k, e.n)
(* a bit count of 0 stands for an unusable one: everything is refused *)
ValOk(e) ==
    LET in == ~(e.k \in DynKinds /\ e.n = 0) /\ InRange(e.k, e.n, e.v) IN
    /\ e.from = in /\ e.same = (IF in THEN 1 ELSE -1)
    /\ e.to = in /\ e.val = in
    /\ (e.k \in DynKinds /\ e.n = 0) \/ (e.wr = in /\ (in \/ e.len = 0))
    /\ (e.k \in VarKinds => (e.size >= 0) = in /\ (e.init >= 0) = in)
    /\ e.others
    /\ IF in THEN LET c == Enc(e.k, e.n, e.v) IN
                  /\ e.size = Len(c) /\ e.init = Len(c) /\ e.len = Len(c)
                  /\ e.bits = c /\ e.back = e.v /\ e.rlen = Len(c)
       ELSE TRUE
TLim == IsEvent("Lim") /\ (LimOk(Line) = TRUE)
TVal == IsEvent("Val") /\ (ValOk(Line) = TRUE)
TEnd == IsEvent("End")
TNext == TLim \/ TVal \/ TEnd
TSpec == TInit /\ [][TNext]_l
=============================================================================
