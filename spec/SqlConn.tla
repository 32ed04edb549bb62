------------------------------ MODULE SqlConn ------------------------------
(* Connection objects over SQLite handles on one database file.             *)
(* A connection object owns its handle (and closes it exactly once) or      *)
(* borrows it; handles have transactions, locks and prepared statements as  *)
(* SQLite documents them (rollback journal, no busy handler).               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Conns, Handles, Stmts
VARIABLES cn,   \* connection objects: on, h (0 none, -1 borrowed and closed by its owner), own
          hd,   \* handles: st, ac (no transaction), lk (lock on the file), dirty, img (rows seen inside the transaction)
          st,   \* prepared statements: h, ph
          db    \* committed rows
sv == <<cn, hd, st, db>>
NoHandle == [st |-> "none", ac |-> TRUE, lk |-> "none", dirty |-> FALSE, img |-> {}]
Fresh == [NoHandle EXCEPT !.st = "open"]
NoConn == [on |-> FALSE, h |-> 0, own |-> FALSE]
NoStmt == [h |-> 0, ph |-> "none"]
SInit == /\ cn = [c \in Conns |-> NoConn] /\ hd = [h \in Handles |-> NoHandle]
         /\ st = [s \in Stmts |-> NoStmt] /\ db = {}
(* ---- the database: one step is a result and the handle's and the file's next state *)
Strong == {"reserved", "pending"}
Others(h, L) == \E g \in Handles : g # h /\ hd[g].st # "none" /\ hd[g].lk \in L
ReadersBut(h, s) == \E q \in Stmts : q # s /\ st[q].h = h /\ st[q].ph = "row"
Readers(h) == ReadersBut(h, -1)
Idle(h) == IF Readers(h) THEN "shared" ELSE "none"
Rows(h) == IF hd[h].dirty THEN hd[h].img ELSE db
R(res, x, d) == [res |-> res, x |-> x, d |-> d]
Stay(res, h) == R(res, hd[h], db)
Done(h) == [hd[h] EXCEPT !.ac = TRUE, !.lk = Idle(h), !.dirty = FALSE, !.img = {}]
CanShare(h) == hd[h].lk # "none" \/ ~Others(h, {"pending"})
Write(h, kind, v) ==
    LET rows == Rows(h)
        clash == kind = "ins" /\ v \in rows
        noop == kind = "del" /\ v \notin rows
        new == IF kind = "ins" THEN rows \cup {v} ELSE rows \ {v}
        lk == IF hd[h].lk = "pending" THEN "pending" ELSE "reserved"
    IN IF hd[h].lk \notin Strong /\ (~CanShare(h) \/ Others(h, Strong)) THEN Stay("busy", h)
       ELSE IF hd[h].ac THEN CASE clash -> Stay("constraint", h)
                               [] OTHER -> IF Others(h, {"shared"}) THEN Stay("busy", h) ELSE R("ok", hd[h], new)
       ELSE CASE clash -> R("constraint", [hd[h] EXCEPT !.lk = lk], db)
              [] noop -> R("ok", [hd[h] EXCEPT !.lk = lk], db)
              [] OTHER -> R("ok", [hd[h] EXCEPT !.lk = lk, !.dirty = TRUE, !.img = new], db)
Begin(h) == IF hd[h].ac THEN R("ok", [hd[h] EXCEPT !.ac = FALSE], db) ELSE Stay("error", h)
Commit(h) == IF hd[h].ac THEN Stay("error", h)
             ELSE IF hd[h].lk \in Strong /\ Others(h, {"shared"}) THEN R("busy", [hd[h] EXCEPT !.lk = "pending"], db)
             ELSE R("ok", Done(h), Rows(h))
Rollback(h) == IF hd[h].ac THEN Stay("error", h) ELSE R("ok", Done(h), db)
Shared(h) == IF hd[h].lk = "none" THEN "shared" ELSE hd[h].lk
Select(h) == IF ~CanShare(h) THEN Stay("busy", h)
             ELSE R("row", [hd[h] EXCEPT !.lk = IF hd[h].ac THEN hd[h].lk ELSE Shared(h)], db)
Sql(h, q, v) == CASE q \in {"ins", "del"} -> Write(h, q, v)
                  [] q = "sel" -> Select(h) [] q = "begin" -> Begin(h)
                  [] q = "commit" -> Commit(h) [] q = "rollback" -> Rollback(h)
                  [] q = "bad" -> Stay("error", h) [] q = "empty" -> Stay("misuse", h)
Put(h, r) == hd' = [hd EXCEPT ![h] = r.x] /\ db' = r.d
(* ---- handles close when nothing uses them any more; unfinished transactions vanish *)
Of(h) == {s \in Stmts : st[s].h = h}
Closed(h) == IF Of(h) = {} THEN NoHandle ELSE [hd[h] EXCEPT !.st = "zombie"]
ClosesNow(h) == Of(h) = {}
Dangle(f, h, c) == [d \in Conns |-> IF d # c /\ f[d].on /\ f[d].h = h THEN [f[d] EXCEPT !.h = -1] ELSE f[d]]
Owned(h) == \E c \in Conns : cn[c].on /\ cn[c].own /\ cn[c].h = h
(* ---- what the program does *)
Open(h) == /\ hd[h].st = "none" /\ \A g \in Handles : hd[g].lk # "pending"
           /\ hd' = [hd EXCEPT ![h] = Fresh] /\ UNCHANGED <<cn, st, db>>
(* an owner is the only owner, and only open handles are handed over; a handle is not handed to its owner again *)
MayTake(c, h, own) == IF h = 0 THEN TRUE ELSE (hd[h].st = "open" /\ (own => \A d \in Conns \ {c} : ~(cn[d].on /\ cn[d].own /\ cn[d].h = h))
                                /\ ~(cn[c].on /\ cn[c].own /\ cn[c].h = h))
Lets(c) == cn[c].on /\ cn[c].own /\ cn[c].h > 0          \* the object has a handle to close
Release(c, new) ==
    IF Lets(c) THEN LET h == cn[c].h IN hd' = [hd EXCEPT ![h] = Closed(h)] /\ cn' = Dangle([cn EXCEPT ![c] = new], h, c)
    ELSE cn' = [cn EXCEPT ![c] = new] /\ UNCHANGED hd
ClosedBy(c) == IF Lets(c) /\ ClosesNow(cn[c].h) THEN {cn[c].h} ELSE {}
Make(c, h, own) == ~cn[c].on /\ MayTake(c, h, own) /\ cn' = [cn EXCEPT ![c] = [on |-> TRUE, h |-> h, own |-> own]] /\ UNCHANGED <<hd, st, db>>
Destroy(c) == cn[c].on /\ Release(c, NoConn) /\ UNCHANGED <<st, db>>
Reset(c, h, own) == cn[c].on /\ MayTake(c, h, own) /\ Release(c, [on |-> TRUE, h |-> h, own |-> own]) /\ UNCHANGED <<st, db>>
Usable(c) == cn[c].on /\ cn[c].h >= 0
Exec(c, q, v, out) == /\ Usable(c) /\ UNCHANGED <<cn, st>>
    /\ IF cn[c].h = 0 THEN out = "misuse" /\ UNCHANGED <<hd, db>>
       ELSE LET r == Sql(cn[c].h, q, v) IN out = r.res /\ Put(cn[c].h, r)
Start(c, out, began) == /\ Usable(c) /\ UNCHANGED <<cn, st>>
    /\ IF cn[c].h = 0 THEN out # "ok" /\ UNCHANGED <<hd, db>>
       ELSE IF hd[cn[c].h].ac THEN LET r == Begin(cn[c].h) IN out = "ok" /\ began = TRUE /\ Put(cn[c].h, r)
       ELSE out = "ok" /\ began = FALSE /\ UNCHANGED <<hd, db>>
End(c, flag, out) == IF flag THEN Exec(c, "commit", 0, out) ELSE Usable(c) /\ out = "ok" /\ UNCHANGED sv
(* a statement without text is no statement, and nothing to keep *)
Prep(c, s, q, out) == /\ Usable(c) /\ st[s].h = 0 /\ UNCHANGED <<cn, hd, db>>
    /\ CASE cn[c].h = 0 -> out = "misuse" /\ UNCHANGED st
         [] q = "bad" -> out = "error" /\ UNCHANGED st
         [] q = "empty" -> out = "none" /\ UNCHANGED st
         [] OTHER -> out = "ok" /\ st' = [st EXCEPT ![s] = [h |-> cn[c].h, ph |-> "fresh"]]
(* the prepared statement counts the rows *)
Step(s, out, n) == /\ st[s].h # 0 /\ st[s].ph \in {"fresh", "row"} /\ UNCHANGED <<cn, db>>
    /\ LET h == st[s].h IN
       IF st[s].ph = "row"
       THEN /\ out = "done" /\ st' = [st EXCEPT ![s].ph = "done"]
            /\ hd' = [hd EXCEPT ![h].lk = IF hd[h].ac /\ ~ReadersBut(h, s) THEN "none" ELSE @]
       ELSE IF ~CanShare(h) THEN out = "busy" /\ UNCHANGED <<st, hd>>
       ELSE out = "row" /\ n = Cardinality(Rows(h)) /\ st' = [st EXCEPT ![s].ph = "row"] /\ hd' = [hd EXCEPT ![h].lk = Shared(h)]
LastOf(s) == hd[st[s].h].st = "zombie" /\ Of(st[s].h) = {s}
Finish(s) == /\ st[s].h # 0 /\ st' = [st EXCEPT ![s] = NoStmt] /\ UNCHANGED <<cn, db>>
    /\ LET h == st[s].h IN
       hd' = IF LastOf(s) THEN [hd EXCEPT ![h] = NoHandle]
             ELSE [hd EXCEPT ![h].lk = IF hd[h].ac /\ st[s].ph = "row" /\ ~ReadersBut(h, s) THEN "none" ELSE @]
(* an unowned handle is closed by the program itself *)
CloseOwn(h) == /\ hd[h].st = "open" /\ ~Owned(h) /\ hd' = [hd EXCEPT ![h] = Closed(h)] /\ cn' = Dangle(cn, h, -1) /\ UNCHANGED <<st, db>>
(* ---- what must hold *)
OneOwner == \A c, d \in Conns : (c # d /\ Lets(c) /\ Lets(d)) => cn[c].h # cn[d].h
OwnsLive == \A c \in Conns : Lets(c) => hd[cn[c].h].st = "open"
OneWriter == \A g, h \in Handles : (g # h /\ hd[g].lk \in Strong) => hd[h].lk \notin Strong
LocksEnd == \A h \in Handles : (hd[h].st = "none" => hd[h] = NoHandle) /\ (hd[h].ac => hd[h].lk = Idle(h) /\ ~hd[h].dirty)
NoLeak == \A h \in Handles : hd[h].st = "zombie" => Of(h) # {}
=============================================================================
