---------------------------- MODULE MC_SqlSchema ---------------------------
(* An unnamed database is searched main first; the attached one never answers for a table of main. *)
EXTENDS SqlSchema
VARIABLE last
T2 == {"a", "ab"}
Cs == {<<<<"x", "INTEGER", 1, 1>>>>, <<<<"x", "TEXT", 0, 0>>, <<"y", "", 0, 1>>>>}
Init == SInit /\ last = <<"">>
L(x) == last' = x
Next == \/ (Attach /\ L(<<"attach">>)) \/ (Detach /\ L(<<"detach">>))
        \/ \E d \in {"main", "aux"}, t \in T2 : \/ \E c \in Cs, h \in {<<>>, <<"rank">>} : (Create(d, t, c, h) /\ L(<<"create", d, t>>))
                                                \/ (Drop(d, t) /\ L(<<"drop", d, t>>))
                                                \/ (Row(d, t) /\ Of(d, t).n < 2 /\ L(<<"row", d, t>>))
        \/ (linked' = FALSE /\ UNCHANGED dbs /\ L(<<"unlink">>))
Spec == Init /\ [][Next]_<<dbs, linked, last>>
View == sv
All == {"", "main", "aux"}
Has(d, t, c) == HasIs(d, t, c, TRUE)
Named == \A t \in T2 : /\ t \in Tables("main") => Owner("", t) = "main"
                       /\ (t \notin Tables("main") /\ t \in Tables("aux")) => Owner("", t) = "aux"
                       /\ \A d \in {"main", "aux"} : Owner(d, t) \in {d, ""}
(* exactly one answer, and the questions agree: a column listed is there, a column of a table that is there or hidden *)
Consistent == \A d \in All, t \in T2 :
    /\ \A c \in {"x", "y", "rank", "z"} :
          /\ Has(d, t, c) # HasIs(d, t, c, FALSE)
          /\ (\E x \in ColumnSet(d, t) : x[1] = c) => Has(d, t, c)
          /\ Has(d, t, c) => CountIs(d, t, TRUE, Of(d, t).n)
    /\ ~linked => CountIs(d, t, FALSE, 0) /\ ~ColumnsAre(d, t, TRUE, <<>>)
(* a change of one table changes no answer about another *)
Local == [][\A d \in {"main", "aux"}, t \in T2 : (last'[1] \in {"create", "drop", "row"} /\ <<last'[2], last'[3]>> # <<d, t>>) =>
              /\ ColumnSet(d, t)' = ColumnSet(d, t) /\ Known(d, t)' = Known(d, t)]_<<dbs, linked, last>>
=============================================================================
