---------------------------- MODULE MC_SqlValue ----------------------------
(* Histories of two cells rows over few types: reading after writing gives the value, other cells stay, and  *)
(* the cell determines the value (except NaN, which SQLite does not know, and the sign of zero).            *)
EXTENDS SqlValue
Types4 == {"Int8", "Float32", "Float64", "String", "ReflectableUtilChoice"}
F32 == {<<s>> \o NatBits(e, 8) \o f : s \in {0, 1}, e \in {0, 1, 127, 254, 255},
                f \in {Zeros(23), Ones(23), Zeros(22) \o <<1>>, <<1>> \o Zeros(22), <<0, 0, 1>> \o Zeros(19) \o <<1>>}}
F64 == {Widen(f) : f \in F32} \cup {<<0>> \o Ones(63), Zeros(63) \o <<1>>}
Values(t) == CASE t = "Int8" -> {<<"i", SignExt(NatBits(b, 8), 64)>> : b \in {0, 127, 128, 255}}
               [] t = "Float32" -> {<<"f", f>> : f \in F32}
               [] t = "Float64" -> {<<"d", f>> : f \in F64}
               [] t = "String" -> {<<"s", <<>>>>, <<"s", <<0>>>>, <<"s", <<65, 0, 66>>>>}
               [] OTHER -> {<<"c", 0, <<>>>>}
Args(t) == IF t = "ReflectableUtilChoice" THEN {<<<<"i", NatBits(9, 8)>>>>} ELSE {<<>>}
Init == tab = Fresh(1)
Next == \/ \E t \in Types4 : \E v \in Values(t), a \in Args(t) : Put(1, t, a, v, Storable(t, a, v))
        \/ \E c \in 1..4 : PutNull(1, c)
Spec == Init /\ [][Next]_tab
(* what Get demands can always be met, by exactly one value up to the sign of zero *)
Answers == \A c \in 1..4 : LET x == tab[1][c] IN
    x.cell # Null => \A w \in Values(x.t) : SameCell(Cell(x.t, w), x.cell) => SameValue(w, x.v)
NullOnlyNaN == \A c \in 1..4 : LET x == tab[1][c] IN (x.t # "" /\ x.cell = Null) => x.t \in {"Float32", "Float64"}
(* widening is exact: order and sign are kept *)
FLess(x, y) == IF x[1] # y[1] THEN x[1] = 1 ELSE IF x[1] = 1 THEN LtU(Tail(y), Tail(x)) ELSE LtU(Tail(x), Tail(y))
ASSUME \A x, y \in {f \in F32 : ~IsNaNSingle(f)} : FLess(x, y) = FLess(Widen(x), Widen(y))
ASSUME \A x \in F32 : IsNaNSingle(x) = IsNaNDouble(Widen(x))
ASSUME Widen(<<0>> \o NatBits(127, 8) \o Zeros(23)) = <<0>> \o NatBits(1023, 11) \o Zeros(52)
ASSUME Widen(Zeros(31) \o <<1>>) = <<0>> \o NatBits(874, 11) \o Zeros(52)
=============================================================================
