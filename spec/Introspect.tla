----------------------------- MODULE Introspect -----------------------------
(* A view seen through introspection: its fields, elements, parameters and   *)
(* functions, and its bits.  Places are reached by steps <<"f", field>>,      *)
(* <<"e", index>>, <<"p", parameter>>, <<"u", function>>, <<"find", names>>.  *)
EXTENDS Reflect
VARIABLES seen   \* the view looked at: type, parameters, value
ivars == <<rvars, seen>>
Idle0 == root = "u8" /\ stack = <<>> /\ cons = TRUE /\ val = None
Spot(t, arr, v, ps) == [how |-> "here", t |-> t, arr |-> arr, v |-> v, ps |-> ps]
NoSpot(how) == [how |-> how, t |-> "", arr |-> FALSE, v |-> None, ps |-> <<>>]
Whole == Spot(seen.t, FALSE, seen.v, seen.ps)
(* functions of the schema: the name and the field they yield *)
Functions(t) == IF t = "ReflectableNested" THEN <<<<"getValue", 1>>>> ELSE <<>>
IsComp(nd) == ~nd.arr /\ Compound(nd.t)
VField(nd, name) ==
    LET r == FieldOf(nd, name) IN
    IF r.how # "here" THEN NoSpot(r.how)
    ELSE LET f == Types[nd.t].fields[FieldAt(nd.t, name)] IN
         Spot(r.t, r.arr, r.v, IF Types[nd.t].kind = "struct" THEN ArgsOf(f, nd.v) ELSE <<>>)
VElem(nd, i) == LET r == Elem(nd, i) IN IF r.how # "here" THEN NoSpot(r.how) ELSE Spot(r.t, FALSE, r.v, nd.ps)
Index(s, name) == LET m == {i \in 1..Len(s) : s[i].n = name} IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE
VParam(nd, name) ==
    IF ~IsComp(nd) THEN NoSpot("refused")
    ELSE LET T == Types[nd.t] i == Index(T.params, name) IN
         IF i = 0 THEN NoSpot("refused") ELSE Spot(T.params[i].t, FALSE, nd.ps[i], <<>>)
VCall(nd, name) ==
    IF ~IsComp(nd) THEN NoSpot("refused")
    ELSE LET F0 == Functions(nd.t) m == {i \in 1..Len(F0) : F0[i][1] = name} IN
         IF m = {} THEN NoSpot("refused")
         ELSE LET k == F0[CHOOSE i \in m : TRUE][2] f == Types[nd.t].fields[k] IN Spot(f.t, f.arr, nd.v[2][k], <<>>)
(* a name on a path: a field if there is one, else a parameter, else a function *)
VName(nd, name) ==
    LET f == VField(nd, name) p == VParam(nd, name) u == VCall(nd, name) IN
    IF ~IsComp(nd) THEN NoSpot("null")
    ELSE IF FieldAt(nd.t, name) # 0 /\ f.how # "null" THEN f ELSE IF p.how = "here" THEN p ELSE u
VFind(nd, names) ==
    LET r == FoldLeft(LAMBDA a, n : IF a.how = "here" THEN VName(a, n) ELSE a, nd, names) IN
    IF r.how = "here" THEN r ELSE NoSpot("null")
VStep(nd, s) ==
    IF nd.how # "here" THEN nd
    ELSE CASE s[1] = "f" -> VField(nd, s[2]) [] s[1] = "e" -> VElem(nd, s[2])
           [] s[1] = "p" -> VParam(nd, s[2]) [] s[1] = "u" -> VCall(nd, s[2]) [] s[1] = "find" -> VFind(nd, s[2])
Reach(path) == FoldLeft(VStep, Whole, path)
(* the bits a view is written with *)
Written(nd) == IF ~IsComp(nd) THEN Nay ELSE IF ValidObj(nd.t, nd.ps, nd.v) THEN Aye(Bits(nd.t, nd.v)) ELSE Nay
Look(nd) == [s |-> Seen([how |-> nd.how, t |-> nd.t, arr |-> nd.arr, v |-> nd.v]), any |-> nd.v, bits |-> Written(nd)]
Show(t, ps, v) == seen' = [t |-> t, ps |-> ps, v |-> v] /\ UNCHANGED rvars
=============================================================================
