----------------------------- MODULE MC_Reflect -----------------------------
(* Every call at every place of small objects: what was set is what is read   *)
(* back, nothing else changes, nothing changes on a refused call or through   *)
(* constant access, and looking for a path finds what the steps lead to.      *)
EXTENDS Reflect
VARIABLE last
mv == <<rvars, last>>
N32(n) == <<"i", NatBits(n, 32)>>
N8(n) == <<"i", NatBits(n, 8)>>
Str(s) == <<"s", s>>
Nested == <<"o", <<N32(1), Str(<<65>>), <<"x", <<1>>>>, <<"y", <<>>>>, N8(1), N8(3)>>>>
WN(s) == <<"o", <<Str(s)>>>>
Objects == [ CreatorObject |-> {<<"o", <<N32(1), Nested, Str(<<>>), <<"a", a>>, <<"a", <<Str(<<66>>)>>>>, None, b, None, c>>>> :
                a \in {<<>>, <<Nested>>}, b \in {None, <<"a", <<>>>>}, c \in {None, Nested}},
             ReflectableUtilUnion |-> {<<"c", 0, <<>>>>, <<"c", 1, <<N8(1)>>>>, <<"c", 2, <<N8(2)>>>>,
                <<"c", 3, <<<<"o", <<N8(1), <<"c", 1, <<<<"a", <<N32(7), N32(8)>>>>>>>>>>>>>>>>},
             WalkerUnion |-> {<<"c", 2, <<Str(<<65>>)>>>>, <<"c", 3, <<<<"a", <<WN(<<>>), WN(<<65>>)>>>>>>>>} ]
AllNames(t) == {Types[t].fields[i].n : i \in 1..Len(Types[t].fields)}
RECURSIVE Places(_, _)
(* all paths of at most k steps which lead somewhere *)
Places(nd, k) ==
    {<<>>} \cup (IF k = 0 THEN {}
     ELSE LET steps == IF nd.arr THEN {<<"e", i - 1>> : i \in 1..Len(nd.v[2])}
                       ELSE IF Compound(nd.t) THEN {<<"f", n>> : n \in AllNames(nd.t)} ELSE {}
          IN UNION {LET r == StepTo(nd, s) IN IF r.how = "here" THEN {<<s>> \o p : p \in Places(r, k - 1)} ELSE {} : s \in steps})
Values == {<<"null">>, <<"obj", "u32", N32(9)>>, <<"cpp", 32, FALSE, NatBits(4, 32)>>, <<"cpp", 8, TRUE, NatBits(9, 8)>>, <<"cpp", 8, TRUE, NatBits(1, 8)>>,
           <<"obj", "string", Str(<<67>>)>>, <<"obj", "CreatorNested", Nested>>, <<"obj", "WalkerNested", WN(<<68>>)>>, <<"obj", "u8", N8(2)>>,
           <<"arr", "u32", <<"a", <<N32(3)>>>>>>, <<"arr", "CreatorNested", <<"a", <<Nested, Nested>>>>>>, <<"cpp", 1, FALSE, <<1>>>>}
Here(p) == Locate(root, val, p)
NamesAt(p) == LET nd == Here(p) IN (IF ~nd.arr /\ Compound(nd.t) THEN AllNames(nd.t) ELSE {}) \cup {"valu"}
Calls(p) == {<<"set", [n |-> n, v |-> x]>> : n \in NamesAt(p), x \in Values} \cup {<<"create", [n |-> n]>> : n \in NamesAt(p)}
            \cup {<<"resize", [n |-> "", i |-> i]>> : i \in {0, 1, 3}} \cup {<<"append", [n |-> "", v |-> x]>> : x \in Values}
            \cup {<<"setAt", [n |-> "", i |-> i, v |-> x]>> : i \in {0, 1}, x \in Values}
            \cup {<<"get", [n |-> n]>> : n \in NamesAt(p)} \cup {<<"at", [n |-> "", i |-> i]>> : i \in {0, 2}}
            \cup {<<"any", [n |-> ""]>>} \cup {<<"find", [n |-> "", names |-> x]>> : x \in {<<"nested", "value">>, <<"nestedArray", "text">>, <<"">>, <<"text", "x">>}}
MInit == \E t \in DOMAIN Objects, c \in BOOLEAN : \E v \in Objects[t] : Start(t, c, v) /\ last = <<>>
MNext == /\ last = <<>>
         /\ \E p \in Places(At(root, FALSE, val), 4), f \in (IF cons THEN {TRUE} ELSE {FALSE}) : \E c \in Calls(p) :
              Do(p, c[1], c[2], f) /\ last' = [p |-> p, op |-> c[1], a |-> c[2], o |-> Outcome(p, c[1], c[2], f), before |-> val]
MSpec == MInit /\ [][MNext]_mv
Done == last # <<>>
Accepted == Done /\ last.o.how = "done"
ConstKeeps == Done /\ cons => val = last.before
RefusedKeeps == Done /\ ~Accepted => val = last.before
LookingKeeps == Done /\ last.op \notin Changing => val = last.before
Target == IF last.op \in {"set", "create"} THEN Append(last.p, <<"f", last.a.n>>)
          ELSE IF last.op = "setAt" THEN Append(last.p, <<"e", last.a.i>>) ELSE last.p
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* other places are as before; places below another branch of the same choice are gone *)
Frame == Accepted /\ last.op \in Changing =>
    \A q \in Places(At(root, FALSE, last.before), 4) :
        LET branch == ~Here(last.p).arr /\ Types[Here(last.p).t].kind # "struct" IN
        Prefix(q, Target) \/ Prefix(Target, q) \/ (branch /\ Prefix(last.p, q)) \/ Here(q) = Locate(root, last.before, q)
ReadBack ==
    Accepted => CASE last.op = "set" -> LET r == Here(Target) f == Types[Here(last.p).t].fields[FieldAt(Here(last.p).t, last.a.n)]
                                            g == Given(f.t, f.arr, f.opt # "no", last.a.v)
                                        IN IF g = None THEN r.how = "null" ELSE r.how = "here" /\ r.v = g /\ r.t = f.t
                  [] last.op = "create" -> Here(Target) = last.o.r /\ last.o.r.how = "here"
                  [] last.op = "resize" -> Len(Here(last.p).v[2]) = last.a.i
                  [] last.op = "append" -> LET s == Here(last.p).v[2] IN Len(s) > 0 /\ SubSeq(s, 1, Len(s) - 1) = Locate(root, last.before, last.p).v[2]
                  [] last.op = "find" -> last.o.r.how \in {"null", "here"}
                  [] OTHER -> TRUE
AllFields(p) == \A i \in 1..Len(p) : p[i][1] = "f"
FindIsWalk == last = <<>> => \A p \in Places(At(root, FALSE, val), 4) :
    AllFields(p) => Find(At(root, FALSE, val), [i \in 1..Len(p) |-> p[i][2]]) = Here(p)
(* comparing is an equivalence on places *)
SameIsEq == last = <<>> => \A p, q \in Places(At(root, FALSE, val), 3) :
    /\ Same(Here(p), Here(p)) /\ Same(Here(p), Here(q)) = Same(Here(q), Here(p))
    /\ Same(Here(p), Here(q)) => Seen(Here(p)) = Seen(Here(q))
=============================================================================
