----------------------------- MODULE MC_Object -----------------------------
(* What is written is read back, nothing shorter is; the order is total.     *)
EXTENDS Schema
VARIABLES t, a, v, w
vars == <<t, a, v, w>>
I(n, b) == <<"i", NatBits(n, b)>>
Arr(s) == {<<"a", <<>>>>} \cup {<<"a", <<x>>>> : x \in s} \cup {<<"a", <<x, x>>>> : x \in s}
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o r : x \in Head(ss), r \in Prod(Tail(ss))}
RECURSIVE Vals(_, _), FieldVals(_, _)
FieldVals(f, small) == (IF f.opt # "no" THEN {None} ELSE {})
                       \cup (IF f.arr THEN Arr(Vals(f.t, TRUE)) ELSE Vals(f.t, small))
(* small: two values of the type, else a set reaching every branch *)
Vals(ty, small) ==
    LET T == Types[ty] IN
    CASE T.kind = "int" -> {<<"i", Zeros(T.sw)>>, <<"i", ZeroExt(Ones(T.w), T.sw)>>} \cup
                           (IF ty = "u8" /\ ~small THEN {I(8, 8), I(1, 8)} ELSE IF T.w < T.sw /\ ~small THEN {<<"i", Ones(T.sw)>>} ELSE {})
      [] T.kind = "bool" -> {<<"i", <<0>>>>, <<"i", <<1>>>>}
      [] T.kind = "string" -> {<<"s", <<>>>>, <<"s", <<97>>>>}
      [] T.kind = "bytes" -> {<<"y", <<255>>>>} \cup (IF small THEN {} ELSE {<<"y", <<>>>>})
      [] T.kind = "extern" -> {<<"x", <<1, 0>>>>} \cup (IF small THEN {} ELSE {<<"x", <<>>>>})
      [] T.kind = "enum" -> {<<"i", IF T.items[i][2] < 0 THEN Ones(8) ELSE NatBits(T.items[i][2], 8)>> : i \in 1..(IF small THEN 1 ELSE Len(T.items))}
      [] T.kind = "mask" -> {I(0, T.sw)} \cup (IF small THEN {} ELSE {I(3, T.sw)})
      [] T.kind = "struct" -> {<<"o", x>> : x \in Prod([i \in 1..Len(T.fields) |-> FieldVals(T.fields[i], TRUE)])}
      [] OTHER -> {<<"c", 0, <<>>>>} \cup UNION {{<<"c", k, <<x>>>> : x \in FieldVals(T.fields[k], small)} : k \in 1..Len(T.fields)}
ArgVals(ty) == IF Compound(ty) THEN Prod([i \in 1..Len(Types[ty].params) |-> Vals(Types[ty].params[i].t, FALSE)]) ELSE {<<>>}
Round == Names \ {"CreatorObject", "WalkerObject"}
Cheap == Names \ {"CreatorObject", "WalkerObject", "ReflectableObject", "CreatorNested"}
Init == \/ /\ t \in Round /\ a \in ArgVals(t) /\ v \in Vals(t, FALSE) /\ w = v
        \/ /\ t \in Cheap /\ a \in ArgVals(t) /\ v \in Vals(t, FALSE) /\ w \in Vals(t, FALSE)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
RoundTrip == ValidObj(t, a, v) =>
    LET b == Bits(t, v) IN
    /\ Dec(t, a, b, 0) = Got(v, Len(b))
    /\ Dec(t, a, <<1, 0, 1>> \o b \o <<1>>, 3) = Got(v, Len(b) + 3)
    /\ Len(b) > 0 => ~Dec(t, a, SubSeq(b, 1, Len(b) - 1), 0).ok
Total == LET o == Ord(t, FALSE, <<>>, <<>>, v, w) IN
    /\ o = -Ord(t, FALSE, <<>>, <<>>, w, v) /\ (o = 0 <=> v = w)
    /\ (Compound(t) => Ord(t, TRUE, a, a, v, w) = o)
    /\ \A x \in Vals(t, TRUE) : (o <= 0 /\ Ord(t, FALSE, <<>>, <<>>, w, x) <= 0) => Ord(t, FALSE, <<>>, <<>>, v, x) <= 0
=============================================================================
