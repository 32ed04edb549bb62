----------------------------- MODULE T_SqlValue ----------------------------
EXTENDS SqlValue, TraceBase
TInit == l = 1 /\ tab = Fresh(1)
Agrees == \A r \in DOMAIN tab' : \A c \in 1..4 : SameCell(Line.cells[r][c], tab'[r][c].cell)
TNext ==
    \/ IsEvent("Begin") /\ tab' = Fresh(Line.rows)
    \/ IsEvent("Put") /\ (Line.type = ClassNames[Column(Line.t)] /\ Line.code = ClassCodes[Column(Line.t)]) = TRUE
                      /\ Put(Line.row, Line.t, Line.a, Line.v, Line.ok) /\ (Agrees = TRUE)
    \/ IsEvent("Get") /\ Get(Line.row, Line.t, Line.ok, Line.v) /\ (Agrees = TRUE)
    \/ IsEvent("Null") /\ PutNull(Line.row, Line.c) /\ (Agrees = TRUE)
    \/ IsEvent("End") /\ UNCHANGED tab
TSpec == TInit /\ [][TNext]_<<l, tab>>
=============================================================================
