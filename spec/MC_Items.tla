------------------------------ MODULE MC_Items -----------------------------
(* Maps are inverse to each other; what is written is read as the same item. *)
EXTENDS Items
Col(k, n, w, sg) == [k |-> k, n |-> n, m |-> 1, w |-> w, sg |-> sg, opt |-> FALSE]
V(b) == ZeroExt(b, 64)
Cols == {Col("int", 3, 8, 0), Col("int", 4, 8, 1), Col("v16", 15, 16, 1), Col("u32", 29, 32, 0)}
ItemVals == {V(<<0>>), V(<<1>>), V(<<1, 0, 1>>), V(<<1, 1, 1>>), Ones(64)}
Names == <<<<65>>, <<65, 66>>, <<66>>>>
Next == def = Nothing /\ \E c \in Cols, n \in 1..3 : \E vs \in [1..n -> ItemVals] :
            /\ \A i \in 1..n : Valid(c, 1, vs[i])
            /\ Define([c |-> c, names |-> SubSeq(Names, 1, n), vals |-> vs])
Spec == Init /\ [][Next]_vars
InverseMaps == \A i \in 1..Len(def.names) :
    /\ ByName(def.names[i]) = i /\ ByValue(def.vals[i]) = i
    /\ LET d == DecItem(<<1>> \o Code(def.vals[i]), 1, FALSE) IN d.st = "ok" /\ d.v = def.vals[i] /\ d.len = Len(Code(def.vals[i]))
OnlyItems == \A v \in ItemVals : (InType(v) /\ DecItem(Code(v), 0, FALSE).st = "ok") <=> (InType(v) /\ ByValue(v) # 0)
MaskLaws == \A a, b \in {V(<<0>>), V(<<1>>), V(<<1, 0, 1>>), V(<<1, 1, 1>>)} :
    /\ Xor(a, b) = And(Or(a, b), Not(And(a, b))) /\ Not(Not(a)) = a /\ (IsSet(a, b) <=> Or(a, b) = a)
=============================================================================
