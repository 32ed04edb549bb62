---------------------------- MODULE T_SqlSchema ----------------------------
EXTENDS SqlSchema, TraceBase
TInit == SInit /\ l = 1
Same == UNCHANGED sv
TNext ==
    \/ IsEvent("TypeName") /\ Line.r = TypeName(Line.c) /\ Same
    \/ IsEvent("Attach") /\ Attach
    \/ IsEvent("Detach") /\ Detach
    \/ IsEvent("Create") /\ Create(Line.db, Line.tab, Line.cols, Line.hidden)
    \/ IsEvent("Drop") /\ Drop(Line.db, Line.tab)
    \/ IsEvent("Row") /\ Row(Line.db, Line.tab)
    \/ IsEvent("Unlink") /\ linked' = FALSE /\ UNCHANGED dbs
    \/ IsEvent("Count") /\ (CountIs(Line.db, Line.tab, Line.ok, Line.n) = TRUE) /\ Same
    \/ IsEvent("Columns") /\ (ColumnsAre(Line.db, Line.tab, Line.ok, Line.r) = TRUE) /\ Same
    \/ IsEvent("Has") /\ Line.ok /\ (HasIs(Line.db, Line.tab, Line.col, Line.r) = TRUE) /\ Same
    \/ IsEvent("End") /\ Same
TSpec == TInit /\ [][TNext]_<<l, dbs, linked>>
=============================================================================
