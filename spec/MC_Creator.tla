----------------------------- MODULE MC_Creator -----------------------------
(* The calls which build an object build exactly it: for every object of a    *)
(* few types over small values, every call of the sequence is accepted and    *)
(* the object at the end is the one wanted.                                   *)
EXTENDS Creator
VARIABLES want, todo
mv == <<vars, want, todo>>
Str(s) == <<"s", s>>
U8(n) == <<"i", NatBits(n, 8)>>
Strs == {Str(<<>>), Str(<<65>>)}
Nums(w) == {<<"i", NatBits(n, w)>> : n \in {0, 7}}
Nested1 == {<<"o", <<a, b, <<"x", x>>, <<"y", <<1>>>>, <<"i", SignExt(e, 8)>>, U8(3)>>>> :
              a \in Nums(32), b \in Strs, x \in {<<>>, <<1, 0>>}, e \in {<<0>>, <<1>>}}
NestedS == {CHOOSE x \in Nested1 : TRUE}
Seqs(X) == {<<>>} \cup {<<x>> : x \in X} \cup {<<x, y>> : x \in X, y \in X}
Arr(X) == {<<"a", s>> : s \in Seqs(X)}
Opts(X) == X \cup {None}
Objects(t) ==
    CASE t = "CreatorNested" -> Nested1
      [] t = "CreatorObject" -> {<<"o", <<a, b, c, d, e, f, <<"n">>, g, h>>>> :
            a \in Nums(32), b \in NestedS, c \in Strs, d \in Arr(NestedS), e \in Arr(Strs), f \in Opts(Arr({<<"x", <<1>>>>})),
            g \in Opts({<<"i", <<1>>>>}), h \in Opts(NestedS)}
      [] t = "WalkerUnion" -> {<<"c", 0, <<>>>>} \cup {<<"c", 1, <<x>>>> : x \in Nums(32)} \cup {<<"c", 2, <<x>>>> : x \in Strs}
                              \cup {<<"c", 3, <<x>>>> : x \in Arr({<<"o", <<s>>>> : s \in Strs})}
      [] t = "ReflectableUtilUnion" -> {<<"c", 1, <<<<"i", NatBits(1, 8)>>>>>>, <<"c", 2, <<U8(2)>>>>}
                              \cup {<<"c", 3, <<<<"o", <<U8(2), <<"c", 1, <<x>>>>>>>>>>>> : x \in Arr(Nums(32))}
MInit == \E t \in {"CreatorNested", "CreatorObject", "WalkerUnion", "ReflectableUtilUnion"} :
           /\ Init(t) /\ want \in Objects(t)
           /\ todo = << <<"beginRoot", "", <<>> >> >> \o Build(t, want) \o << <<"end", "", <<>> >> >>
MNext == /\ todo # <<>> /\ Head(todo)[1] # "end" /\ todo' = Tail(todo) /\ UNCHANGED want
         /\ Call(Head(todo)[1], Head(todo)[2], Head(todo)[3])
MSpec == MInit /\ [][MNext]_mv
Going == todo # <<>> /\ Head(todo)[1] # "end"
Accepts == Going => Effect(Head(todo)[1], Head(todo)[2], Head(todo)[3]).ok
Reached == ~Going => Len(stack) = 1 /\ Top.v = want /\ Effect("endRoot", "", <<>>).ok
(* in every state at most one kind of closing call is accepted, and endRoot only at the bottom *)
Closing == Cardinality({o \in {"endRoot", "endArray", "endCompound", "endCompoundElement"} : Effect(o, "", <<>>).ok})
OneWayOut == stack # <<>> => Closing = 1
=============================================================================
