--------------------------- MODULE MC_JsonObject ----------------------------
(* Reading the text of an object gives the object, whatever the layout; the   *)
(* text with one token left out is refused or gives another object.           *)
EXTENDS JsonObject
VARIABLES t, v, w, pos
mv == <<vars, t, v, w, pos>>
Str1(s) == <<"s", s>>
U8(n) == <<"i", NatBits(n, 8)>>
Strs == {Str1(<<>>), Str1(<<34, 10, 200>>)}
Nums(n) == {<<"i", Zero(n)>>, <<"i", [i \in 1..n |-> 1]>>}
Nested1 == {<<"o", <<a, b, <<"x", x>>, <<"y", y>>, <<"i", SignExt(e, 8)>>, U8(m)>>>> :
              a \in Nums(32), b \in {Str1(<<34, 10, 200>>)}, x \in {<<>>, <<1, 0, 1, 1, 1, 1, 0, 1, 1>>}, y \in {<<>>, <<1, 255>>}, e \in {<<0>>, <<1>>}, m \in {0, 3, 8}}
One1 == <<"o", <<<<"i", Zero(32)>>, Str1(<<65>>), <<"x", <<1, 0, 1>>>>, <<"y", <<>>>>, U8(1), U8(2)>>>>
Arr(X) == {<<"a", s>> : s \in {<<>>} \cup {<<x>> : x \in X} \cup {<<x, y>> : x \in X, y \in X}}
Objects(x) ==
    CASE x = "CreatorNested" -> Nested1
      [] x = "CreatorObject" -> {<<"o", <<<<"i", Zero(32)>>, One1, c, d, e, f, <<"n">>, g, h>>>> :
            c \in {Str1(<<>>)}, d \in Arr({One1}), e \in {<<"a", <<Str1(<<65>>)>>>>}, f \in {None, <<"a", <<>>>>, <<"a", <<<<"x", <<1>>>>>>>>},
            g \in {None, <<"i", <<1>>>>}, h \in {None, One1}}
      [] x = "WalkerUnion" -> {<<"c", 0, <<>>>>} \cup {<<"c", 1, <<y>>>> : y \in Nums(32)} \cup {<<"c", 2, <<y>>>> : y \in Strs}
                              \cup {<<"c", 3, <<y>>>> : y \in Arr({<<"o", <<s>>>> : s \in Strs})}
      [] x = "WalkerChoice" -> {<<"c", 0, <<>>>>} \cup {<<"c", 4, <<y>>>> : y \in Nums(64)}
      [] x = "ReflectableUtilUnion" -> {<<"c", 1, <<U8(1)>>>>, <<"c", 2, <<U8(2)>>>>}
                              \cup {<<"c", 3, <<<<"o", <<U8(2), <<"c", 1, <<y>>>>>>>>>>>> : y \in Arr(Nums(32))}
Layouts == {[ind |-> i, item |-> IF i < 0 THEN <<44, 32>> ELSE <<44>>, key |-> <<58, 32>>, names |-> n] : i \in {-1, 0, 2}, n \in BOOLEAN}
MInit == /\ Init("u8") /\ pos = 0
         /\ t \in {"CreatorNested", "CreatorObject", "WalkerUnion", "WalkerChoice", "ReflectableUtilUnion"}
         /\ v \in Objects(t) /\ w \in Layouts
MNext == pos = 0 /\ pos' = 1 /\ UNCHANGED <<vars, t, v, w>>
MSpec == MInit /\ [][MNext]_mv
Out == ValueText(w, 0, t, v)
ReadsBack == pos = 1 => LET o == Out q == Read(t, o, J!Start) IN q.r = "ok" /\ q.a.v = v /\ q.st.p = Len(o) + 1
Twice == pos = 1 /\ w.ind = 2 => LET o == Out \o <<10>> \o Out q == Read(t, o, J!Start) r == Read(t, o, q.st) IN q.r = "ok" /\ r.r = "ok" /\ r.a.v = v /\ Read(t, o, r.st).r = "end"
(* without its last character the text is no object *)
Cut == pos = 1 => LET o == Out IN Read(t, SubSeq(o, 1, Len(o) - 1), J!Start).r # "ok"
=============================================================================
