----------------------------- MODULE T_SqlConn -----------------------------
EXTENDS SqlConn, TraceBase
tv == <<cn, hd, st, db, l>>
TInit == SInit /\ l = 1
Num(b) == IF b THEN 1 ELSE 0
Code(x) == CASE x = "none" -> 0 [] x = "open" -> 1 [] x = "zombie" -> 2
Pending == \E h \in Handles : hd'[h].lk = "pending"
Range(q) == {q[i] : i \in 1..Len(q)}
(* everything visible: handles with their transactions and statements, objects, committed rows; no use of closed handles *)
Agrees ==
    /\ \A h \in Handles : Line.hs[h] = <<Code(hd'[h].st), Num(hd'[h].ac), Cardinality({q \in Stmts : st'[q].h = h})>>
    /\ \A c \in Conns : LET x == cn'[c] IN Line.cs[c + 1] = IF x.on THEN <<1, x.h, Num(x.own)>> ELSE <<0, 0, 0>>
    /\ IF Pending THEN Line.rows = <<-1>> ELSE Range(Line.rows) = db' /\ Len(Line.rows) = Cardinality(db')
    /\ Line.bad = 0
    /\ Range(Line.closed) = {h \in Handles : hd[h].st # "none" /\ hd'[h].st = "none"}
    /\ Len(Line.closed) = Cardinality(Range(Line.closed))
Ok == (Agrees = TRUE)
TNext ==
    \/ IsEvent("Begin") /\ Line.bad = 0 /\ cn' = [c \in Conns |-> NoConn] /\ hd' = [h \in Handles |-> NoHandle]
                        /\ st' = [q \in Stmts |-> NoStmt] /\ db' = {}
    \/ IsEvent("Open") /\ Open(Line.h) /\ Ok
    \/ IsEvent("CloseOwn") /\ CloseOwn(Line.h) /\ Ok
    \/ IsEvent("Make") /\ Make(Line.c, Line.h, Line.own) /\ Ok
    \/ IsEvent("Reset") /\ Reset(Line.c, Line.h, Line.own) /\ Ok
    \/ IsEvent("Destroy") /\ Destroy(Line.c) /\ Ok
    \/ IsEvent("Exec") /\ Exec(Line.c, Line.q, Line.v, Line.out) /\ Ok
    \/ IsEvent("Start") /\ Start(Line.c, Line.out, Line.began) /\ Ok
    \/ IsEvent("EndT") /\ End(Line.c, Line.flag, Line.out) /\ Ok
    \/ IsEvent("Prep") /\ Prep(Line.c, Line.s, Line.q, Line.out) /\ Ok
    \/ IsEvent("Step") /\ Step(Line.s, Line.out, Line.n) /\ Ok
    \/ IsEvent("Finish") /\ Finish(Line.s) /\ Ok
    \/ IsEvent("End") /\ UNCHANGED sv
TSpec == TInit /\ [][TNext]_tv
=============================================================================
