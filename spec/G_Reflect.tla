------------------------------ MODULE G_Reflect ------------------------------
(* Every call at every place of an object of type ROOT whose values are small *)
(* and whose arrays have at most two elements.                                *)
EXTENDS Reflect, Json, IOUtils
VARIABLE op
gv == <<rvars, op>>
GInit == Start(IOEnv.ROOT, FALSE, Default(IOEnv.ROOT)) /\ op = <<>>
Vals == [ null |-> <<"null">>, u32 |-> <<"obj", "u32", <<"i", NatBits(5, 32)>>>>, cpp |-> <<"cpp", 32, FALSE, NatBits(5, 32)>>,
          str |-> <<"obj", "string", <<"s", <<65>>>>>>, enum |-> <<"obj", "ReflectableUtilEnum", <<"i", NatBits(1, 8)>>>>,
          raw8 |-> <<"cpp", 8, TRUE, NatBits(1, 8)>>, raw9 |-> <<"cpp", 8, TRUE, NatBits(9, 8)>>, mask |-> <<"obj", "u8", <<"i", NatBits(6, 8)>>>>,
          nested |-> <<"obj", "WalkerNested", <<"o", <<<<"s", <<65>>>>>>>>>>, arr |-> <<"arr", "u32", <<"a", <<<<"i", Zero(32)>>>>>>>> ]
Here(p) == Locate(root, val, p)
AllNames(t) == {Types[t].fields[i].n : i \in 1..Len(Types[t].fields)}
RECURSIVE Places(_, _)
Places(nd, k) ==
    {<<>>} \cup (IF k = 0 THEN {}
     ELSE LET steps == IF nd.arr THEN {<<"e", i - 1>> : i \in 1..Len(nd.v[2])}
                       ELSE IF Compound(nd.t) THEN {<<"f", n>> : n \in AllNames(nd.t)} ELSE {}
          IN UNION {LET r == StepTo(nd, s) IN IF r.how = "here" THEN {<<s>> \o p : p \in Places(r, k - 1)} ELSE {} : s \in steps})
Text(p) == IF p = <<>> THEN "-" ELSE FoldLeft(LAMBDA a, s : LET x == IF s[1] = "f" THEN s[2] ELSE ToString(s[2]) IN
                                                IF a = "" THEN x ELSE a \o "/" \o x, "", p)
NamesAt(p) == LET nd == Here(p) IN IF ~nd.arr /\ Compound(nd.t) THEN AllNames(nd.t) \cup {"valu"} ELSE {"value"}
Call1(p, o, a) == Do(p, o, a, FALSE)
Short(v) == \A p \in Places(At(root, FALSE, v), 5) : LET nd == Locate(root, v, p) IN nd.arr => Len(nd.v[2]) <= 2
GNext == /\ \E p \in Places(At(root, FALSE, val), 5) :
              \/ op' = <<"see", Text(p), "-", "-">> /\ UNCHANGED rvars
              \/ \E n \in NamesAt(p), v \in DOMAIN Vals : Call1(p, "set", [n |-> n, v |-> Vals[v]]) /\ op' = <<"set", Text(p), n, v>>
              \/ \E n \in NamesAt(p) : Call1(p, "create", [n |-> n]) /\ op' = <<"create", Text(p), n, "-">>
              \/ \E i \in 0..2 : Call1(p, "resize", [n |-> "", i |-> i]) /\ op' = <<"resize", Text(p), ToString(i), "-">>
              \/ \E v \in DOMAIN Vals : Call1(p, "append", [n |-> "", v |-> Vals[v]]) /\ op' = <<"append", Text(p), "-", v>>
              \/ \E i \in 0..2, v \in DOMAIN Vals : Call1(p, "setAt", [n |-> "", i |-> i, v |-> Vals[v]]) /\ op' = <<"setAt", Text(p), ToString(i), v>>
         /\ Short(val')
GSpec == GInit /\ [][GNext]_gv
GView == val
Edge == PrintT(<<"EDGE", ToJson(val), ToJson(op'), ToJson(val')>>)
=============================================================================
