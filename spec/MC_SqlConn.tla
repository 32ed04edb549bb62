----------------------------- MODULE MC_SqlConn -----------------------------
(* All histories of two connection objects, two handles and a statement: rows become visible to others  *)
(* only by a commit of a whole transaction, and what is not committed vanishes with its handle.         *)
EXTENDS SqlConn
CONSTANT Vals
VARIABLE last
Outs == {"ok", "busy", "constraint", "error", "misuse", "row", "done", "none"}
Qs == {"ins", "del", "sel", "begin", "commit", "rollback", "bad", "empty"}
Init == SInit /\ last = <<"init">>
L(x) == last' = x
Next == \/ \E h \in Handles : (Open(h) /\ L(<<"open", h>>)) \/ (CloseOwn(h) /\ L(<<"close", h>>))
        \/ \E c \in Conns, h \in Handles \cup {0}, own \in BOOLEAN :
              (Make(c, h, own) /\ L(<<"make", c>>)) \/ (Reset(c, h, own) /\ L(<<"reset", c>>))
        \/ \E c \in Conns : Destroy(c) /\ L(<<"destroy", c>>)
        \/ \E c \in Conns, q \in Qs, v \in Vals, o \in Outs : Exec(c, q, v, o) /\ L(<<"exec", c, q, o>>)
        \/ \E c \in Conns, b \in BOOLEAN : Start(c, "ok", b) /\ L(<<"start", c, b>>)
        \/ \E c \in Conns, b \in BOOLEAN, o \in Outs : End(c, b, o) /\ L(<<"end", c, b, o>>)
        \/ \E c \in Conns, s \in Stmts, q \in {"sel", "bad"}, o \in Outs : Prep(c, s, q, o) /\ L(<<"prep", s>>)
        \/ \E s \in Stmts, o \in Outs, n \in 0..2 : (Step(s, o, n) /\ L(<<"step", s, o>>)) \/ (Finish(s) /\ L(<<"finish", s>>))
Spec == Init /\ [][Next]_<<cn, hd, st, db, last>>
View == sv
(* committed rows change by a commit, or by a statement outside of transactions *)
OnlyCommits == [][db' # db => \/ (last'[1] = "end" /\ last'[3] /\ last'[4] = "ok")
                              \/ (last'[1] = "exec" /\ last'[3] \in {"commit", "ins", "del"} /\ last'[4] = "ok")]_<<cn, hd, st, db, last>>
Whole == [][db' # db => \E h \in Handles : (hd[h].dirty /\ db' = hd[h].img /\ hd'[h].ac) \/ hd[h].ac]_<<cn, hd, st, db, last>>
(* an object closes only its own handle, and only by letting it go *)
ClosesOwn == [][\A h \in Handles : (hd[h].st = "open" /\ hd'[h].st # "open") =>
                  \/ (last'[1] = "close" /\ last'[2] = h)
                  \/ (last'[1] \in {"reset", "destroy"} /\ Lets(last'[2]) /\ cn[last'[2]].h = h)]_<<cn, hd, st, db, last>>
(* the transaction flag: who began it is told so, nobody else ends it with a false flag *)
Told == [][(last'[1] = "start" => (last'[3] <=> hd[cn[last'[2]].h].ac)) /\ ((last'[1] = "end" /\ ~last'[3]) => UNCHANGED sv)]_<<cn, hd, st, db, last>>
=============================================================================
