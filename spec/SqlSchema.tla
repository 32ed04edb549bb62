----------------------------- MODULE SqlSchema -----------------------------
(* The schema of a main and an attached database as questions see it: the    *)
(* first database with a table of the name answers when none is named.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES dbs,        \* database -> table -> [cols: columns as <<name, type, not null, in primary key>>, hidden: names, n: rows]
          linked      \* a database is there at all
sv == <<dbs, linked>>
Empty == [x \in {} |-> 0]
SInit == dbs = ("main" :> Empty) /\ linked = TRUE
Tables(d) == IF d \in DOMAIN dbs THEN DOMAIN dbs[d] ELSE {}
(* the database which answers for a table; "" if none does *)
Owner(d, t) == IF d # "" THEN IF t \in Tables(d) THEN d ELSE ""
               ELSE IF t \in Tables("main") THEN "main" ELSE IF t \in Tables("aux") THEN "aux" ELSE ""
Known(d, t) == linked /\ Owner(d, t) # ""
Of(d, t) == dbs[Owner(d, t)][t]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Attach == "aux" \notin DOMAIN dbs /\ dbs' = With(dbs, "aux", Empty) /\ UNCHANGED linked
Detach == "aux" \in DOMAIN dbs /\ dbs' = Without(dbs, "aux") /\ UNCHANGED linked
Create(d, t, cols, hidden) == /\ d \in DOMAIN dbs /\ t \notin Tables(d) /\ UNCHANGED linked
                              /\ dbs' = [dbs EXCEPT ![d] = With(dbs[d], t, [cols |-> cols, hidden |-> hidden, n |-> 0])]
Drop(d, t) == t \in Tables(d) /\ dbs' = [dbs EXCEPT ![d] = Without(dbs[d], t)] /\ UNCHANGED linked
Row(d, t) == t \in Tables(d) /\ dbs' = [dbs EXCEPT ![d][t].n = @ + 1] /\ UNCHANGED linked
(* answers *)
CountIs(d, t, ok, n) == ok = Known(d, t) /\ (ok => n = Of(d, t).n)
ColumnSet(d, t) == IF Known(d, t) THEN {<<c[1], c[1], c[2], c[3], c[4]>> : c \in {Of(d, t).cols[i] : i \in 1..Len(Of(d, t).cols)}} ELSE {}
(* a table that is not there has no columns; a database that is not there is an error, or has none *)
ColumnsAre(d, t, ok, r) == /\ (linked /\ (d = "" \/ d \in DOMAIN dbs)) => ok
                           /\ ok => {r[i] : i \in 1..Len(r)} = ColumnSet(d, t) /\ Len(r) = Cardinality(ColumnSet(d, t))
                           /\ ~linked => ~ok
HasIs(d, t, c, r) == r = (Known(d, t) /\ ((\E i \in 1..Len(Of(d, t).cols) : Of(d, t).cols[i][1] = c)
                                          \/ \E i \in 1..Len(Of(d, t).hidden) : Of(d, t).hidden[i] = c))
TypeName(c) == CASE c = 1 -> "INTEGER" [] c = 2 -> "REAL" [] c = 3 -> "TEXT" [] c = 4 -> "BLOB" [] OTHER -> "NULL"
=============================================================================
