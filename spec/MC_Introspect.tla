---------------------------- MODULE MC_Introspect ---------------------------
(* Reading views: dotted paths are the steps they name, parameters are the    *)
(* arguments of the surrounding view, and what is written reads back.         *)
EXTENDS Introspect
mv == ivars
N32(n) == <<"i", NatBits(n, 32)>>
N8(n) == <<"i", NatBits(n, 8)>>
Str(s) == <<"s", s>>
Nested(n) == <<"o", <<N32(n), Str(<<65>>), <<"x", <<1>>>>, <<"y", <<>>>>, N8(1), N8(3)>>>>
Enum(n) == <<"i", IF n < 0 THEN Ones(8) ELSE NatBits(n, 8)>>
RChoice(e) == IF e = -1 THEN <<"c", 1, <<Str(<<67>>)>>>> ELSE <<"c", 2, <<N32(5)>>>>
Shows == {[t |-> "CreatorObject", ps |-> <<>>, v |-> <<"o", <<N32(9), Nested(n), Str(<<>>), <<"a", a>>, <<"a", <<Str(<<66>>)>>>>, None, None, None, c>>>>] :
            n \in {1, 9}, a \in {<<>>, <<Nested(9)>>}, c \in {None, Nested(2)}}
         \cup {[t |-> "ReflectableObject", ps |-> <<>>, v |-> <<"o", <<Str(s), <<"o", <<N32(3)>>>>, Enum(e), RChoice(f), <<"c", 1, <<N32(4)>>>>>>>>] :
            s \in {<<>>, <<68>>}, e \in {-1, 0}, f \in {-1, 0}}
         \cup {[t |-> "CreatorNested", ps |-> <<N32(1)>>, v |-> Nested(1)], [t |-> "ReflectableNested", ps |-> <<N32(3), Str(<<69>>)>>, v |-> <<"o", <<N32(8)>>>>]}
MInit == Idle0 /\ seen \in Shows
MNext == UNCHANGED mv
MSpec == MInit /\ [][MNext]_mv
NamesOf(nd) == IF ~IsComp(nd) THEN {} ELSE
    LET T == Types[nd.t] IN {T.fields[i].n : i \in 1..Len(T.fields)} \cup {T.params[i].n : i \in 1..Len(T.params)}
                            \cup {Functions(nd.t)[i][1] : i \in 1..Len(Functions(nd.t))}
Steps(nd) == IF nd.arr THEN {<<"e", i - 1>> : i \in 1..Len(nd.v[2])}
             ELSE IF ~IsComp(nd) THEN {}
             ELSE {<<k, n>> : k \in {"f", "p", "u"}, n \in NamesOf(nd)}
RECURSIVE Ways(_, _)
Ways(nd, k) == {<<>>} \cup (IF k = 0 THEN {} ELSE UNION {LET r == VStep(nd, s) IN IF r.how = "here" THEN {<<s>> \o p : p \in Ways(r, k - 1)} ELSE {} : s \in Steps(nd)})
All == Ways(Whole, 4)
NoElems(p) == \A i \in 1..Len(p) : p[i][1] # "e"
NamesIn(p) == [i \in 1..Len(p) |-> p[i][2]]
(* names of fields, parameters and functions do not collide in the schema, so a path names one place *)
FindIsWalk == \A p \in All : NoElems(p) => VFind(Whole, NamesIn(p)) = Reach(p)
FindFails == \A p \in All : NoElems(p) => \A n \in {"", "nothing"} : VFind(Whole, Append(NamesIn(p), n)) = NoSpot("null")
(* a nested view has the arguments its field gives *)
ParamsFollow == \A p \in All : LET nd == Reach(p) IN
    IsComp(nd) => /\ Len(nd.ps) = Len(Types[nd.t].params)
                  /\ \A i \in 1..Len(nd.ps) : VParam(nd, Types[nd.t].params[i].n).v = nd.ps[i]
(* what a view writes is read back with its parameters *)
ReadsBack == \A p \in All : LET nd == Reach(p) IN
    IsComp(nd) /\ Written(nd) # Nay => LET r == Dec(nd.t, nd.ps, Written(nd)[2], 0) IN r.ok /\ r.v = nd.v /\ r.p = Len(Written(nd)[2])
(* a view is written exactly when all its parts can be *)
PartsToo == \A p \in All : LET nd == Reach(p) IN
    IsComp(nd) /\ Written(nd) # Nay => \A s \in {x \in Steps(nd) : x[1] = "f"} : LET q == VStep(nd, s) IN
        q.how = "here" /\ IsComp(q) => Written(q) # Nay
=============================================================================
