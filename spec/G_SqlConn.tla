----------------------------- MODULE G_SqlConn -----------------------------
(* The complete labelled graph of a few connection objects, handles and a statement over one row. *)
EXTENDS SqlConn, TLC, Json, IOUtils
VARIABLE op
gv == <<cn, hd, st, db, op>>
GConns == 0..(atoi(IOEnv.NCONN) - 1)
GHandles == 1..atoi(IOEnv.NHANDLE)
GStmts == 0..(atoi(IOEnv.NSTMT) - 1)
GInit == SInit /\ op = <<>>
Do(x) == op' = x
B01(b) == IF b THEN 1 ELSE 0
Outs == {"ok", "busy", "constraint", "error", "misuse", "row", "done", "none"}
Some(A(_)) == \E o \in Outs : A(o)
GNext ==
    \/ \E h \in Handles : (Open(h) /\ Do(<<"Open", h>>)) \/ (CloseOwn(h) /\ Do(<<"CloseOwn", h>>))
    \/ \E c \in Conns, h \in Handles \cup {0}, own \in BOOLEAN :
          \/ (Make(c, h, own) /\ Do(<<"Make", c, h, B01(own)>>))
          \/ (Reset(c, h, own) /\ Do(<<"Reset", c, h, B01(own)>>))
    \/ \E c \in Conns : \/ (Destroy(c) /\ Do(<<"Destroy", c>>))
                        \/ ((\E o \in Outs, b \in BOOLEAN : Start(c, o, b)) /\ Do(<<"Start", c>>))
                        \/ \E b \in BOOLEAN : (\E o \in Outs : End(c, b, o)) /\ Do(<<"EndT", c, B01(b)>>)
                        \/ \E q \in {"ins", "del", "sel", "begin", "commit", "rollback", "bad", "empty"} :
                              (\E o \in Outs : Exec(c, q, 1, o)) /\ Do(<<"Exec", c, q, 1>>)
                        \/ \E s \in Stmts, q \in {"sel", "bad", "empty"} : (\E o \in Outs : Prep(c, s, q, o)) /\ Do(<<"Prep", c, s, q>>)
    \/ \E s \in Stmts : \/ ((\E o \in Outs, n \in 0..1 : Step(s, o, n)) /\ Do(<<"Step", s>>))
                        \/ (Finish(s) /\ Do(<<"Finish", s>>))
GSpec == GInit /\ [][GNext]_gv
Shape(a, b, c, d) == <<[x \in Conns |-> <<a[x].on, a[x].h, a[x].own>>],
                       [x \in Handles |-> <<b[x].st, b[x].ac, b[x].lk, b[x].dirty, b[x].img>>], [x \in Stmts |-> <<c[x].h, c[x].ph>>], d>>
GView == Shape(cn, hd, st, db)
Edge == PrintT(<<"EDGE", ToJson(Shape(cn, hd, st, db)), ToJson(op'), ToJson(Shape(cn', hd', st', db'))>>)
=============================================================================
