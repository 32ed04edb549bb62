------------------------------- MODULE Schema -------------------------------
(* The schema of the test objects and what it means: which values are       *)
(* consistent, their bits, how bits are decoded, and how values compare.     *)
(* A value is a tree: <<"i", raw bits of the storage type>>, <<"s", bytes>>, *)
(* <<"y", bytes>>, <<"x", bits>>, <<"n">> (absent), <<"a", <<elements>>>>,   *)
(* <<"o", <<fields>>>>, <<"c", k, <<value>>>> (branch k, 0: none).           *)
EXTENDS Arrays, TLC

B(kind, w, sw, sg) == [kind |-> kind, w |-> w, sw |-> sw, sg |-> sg]
E(w, sg, items) == [kind |-> "enum", w |-> w, sw |-> w, sg |-> sg, items |-> items]
K(w, items) == [kind |-> "mask", w |-> w, sw |-> w, sg |-> FALSE, items |-> items]
F(n, t) == [n |-> n, t |-> t, arr |-> FALSE, opt |-> "no", args |-> <<>>]
FA(n, t) == [F(n, t) EXCEPT !.arr = TRUE]
Opt(f) == [f EXCEPT !.opt = "auto"]
S(params, fields) == [kind |-> "struct", params |-> params, fields |-> fields]
C(params, fields, sel) == [kind |-> "choice", params |-> params, fields |-> fields, sel |-> sel]
U(fields) == [kind |-> "union", params |-> <<>>, fields |-> fields]
P(n, t) == [n |-> n, t |-> t]
(* arguments of parameterized fields: a sibling field or a constant *)
FromField(i) == [f |-> i, k |-> <<"n">>]
Const(k) == [f |-> 0, k |-> k]
NestedF(f) == [f EXCEPT !.args = <<FromField(1)>>]

Types ==
  [ u8 |-> B("int", 8, 8, FALSE), u16 |-> B("int", 16, 16, FALSE), u32 |-> B("int", 32, 32, FALSE), u64 |-> B("int", 64, 64, FALSE),
    i8 |-> B("int", 8, 8, TRUE), i16 |-> B("int", 16, 16, TRUE), i32 |-> B("int", 32, 32, TRUE), i64 |-> B("int", 64, 64, TRUE), i31 |-> B("int", 31, 32, TRUE), bit31 |-> B("int", 31, 32, FALSE),
    bool |-> B("bool", 1, 1, FALSE), string |-> B("string", 0, 0, FALSE), extern |-> B("extern", 0, 0, FALSE), bytes |-> B("bytes", 0, 0, FALSE),
    CreatorEnum |-> E(8, TRUE, <<<<"ONE", 0>>, <<"TWO", 1>>, <<"MinusOne", -1>>>>),
    CreatorUnsignedEnum |-> E(8, FALSE, <<<<"ONE", 0>>, <<"TWO", 1>>>>),
    ReflectableEnum |-> E(8, TRUE, <<<<"VALUE1", -1>>, <<"VALUE2", 0>>, <<"VALUE3", 1>>>>),
    ReflectableUtilEnum |-> E(8, TRUE, <<<<"ONE", 0>>, <<"TWO", 1>>>>),
    CreatorBitmask |-> K(8, <<<<"READ", 1>>, <<"WRITE", 2>>>>),
    WalkerBitmask |-> K(32, <<<<"ZERO", 1>>>>),
    ReflectableBitmask |-> K(8, <<<<"CREATE", 1>>, <<"READ", 2>>, <<"WRITE", 4>>>>),
    ReflectableUtilBitmask |-> K(8, <<<<"READ", 1>>, <<"WRITE", 2>>>>),
    CreatorNested |-> S(<<P("param", "u32")>>,
        <<F("value", "u32"), F("text", "string"), F("externData", "extern"), F("bytesData", "bytes"),
          F("creatorEnum", "CreatorEnum"), F("creatorBitmask", "CreatorBitmask")>>),
    CreatorObject |-> S(<<>>,
        <<F("value", "u32"), NestedF(F("nested", "CreatorNested")), F("text", "string"), NestedF(FA("nestedArray", "CreatorNested")),
          FA("textArray", "string"), Opt(FA("externArray", "extern")), Opt(FA("bytesArray", "bytes")), Opt(F("optionalBool", "bool")),
          Opt(NestedF(F("optionalNested", "CreatorNested")))>>),
    WalkerNested |-> S(<<>>, <<F("text", "string")>>),
    WalkerUnion |-> U(<<F("value", "u32"), F("text", "string"), FA("nestedArray", "WalkerNested")>>),
    WalkerChoice |-> C(<<P("selector", "u8")>>, <<F("value8", "u8"), F("value16", "u16"), F("value32", "u32"), F("value64", "u64")>>,
        << <<8, 1>>, <<16, 2>>, <<32, 3>>, <<64, 4>> >>),
    WalkerObject |-> S(<<>>,
        <<F("identifier", "u32"), [F("nested", "WalkerNested") EXCEPT !.opt = "if"], F("text", "string"), FA("unionArray", "WalkerUnion"),
          Opt(FA("optionalUnionArray", "WalkerUnion")), F("choiceSelector", "u8"),
          [F("choiceField", "WalkerChoice") EXCEPT !.args = <<FromField(6)>>]>>),
    ReflectableNested |-> S(<<P("dummyParam", "i31"), P("stringParam", "string")>>, <<F("value", "bit31")>>),
    ReflectableChoice |-> C(<<P("param", "ReflectableEnum")>>, <<F("valueStr", "string"), F("value32", "u32")>>, << <<-1, 1>>, <<0, 2>> >>),
    ReflectableUnion |-> U(<<F("value32", "u32"), F("valueStr", "string")>>),
    ReflectableObject |-> S(<<>>,
        <<F("stringField", "string"),
          [F("reflectableNested", "ReflectableNested") EXCEPT !.args = <<Const(<<"i", NatBits(13, 32)>>), FromField(1)>>],
          F("reflectableEnum", "ReflectableEnum"),
          [F("reflectableChoice", "ReflectableChoice") EXCEPT !.args = <<FromField(3)>>], F("reflectableUnion", "ReflectableUnion")>>),
    ReflectableUtilChoice |-> C(<<P("param", "u8")>>, <<FA("array", "u32")>>, << <<1, 1>>, <<2, 1>> >>),
    ReflectableUtilObject |-> S(<<>>, <<F("choiceParam", "u8"),
          [F("reflectableUtilChoice", "ReflectableUtilChoice") EXCEPT !.args = <<FromField(1)>>]>>),
    ReflectableUtilUnion |-> U(<<F("reflectableUtilEnum", "ReflectableUtilEnum"), F("reflectableUtilBitmask", "ReflectableUtilBitmask"),
          F("reflectableUtilObject", "ReflectableUtilObject")>>),
    DebugStringObject |-> S(<<>>, <<F("text", "string")>>),
    DebugStringParamObject |-> S(<<P("param", "i32")>>, <<F("text", "string")>>)
  ]
Names == DOMAIN Types
Compound(t) == Types[t].kind \in {"struct", "choice", "union"}

-----------------------------------------------------------------------------
None == <<"n">>
Set(v) == v[1] # "n"
(* small signed number a raw value stands for (enumerations, selectors) *)
Num(v) == LET b == v[2] IN IF Len(b) > 8 \/ b[1] = 0 THEN BitsNat(Last0(b, IF Len(b) > 30 THEN 30 ELSE Len(b))) ELSE BitsNat(b) - 2^Len(b)
NumOf(t, v) == IF Types[t].sg THEN Num(v) ELSE BitsNat(v[2])
Selected(T, args) == LET x == NumOf(T.params[1].t, args[1])
                         m == {i \in 1..Len(T.sel) : T.sel[i][1] = x}
                     IN IF m = {} THEN 0 ELSE T.sel[CHOOSE i \in m : TRUE][2]
ArgsOf(f, o) == [i \in 1..Len(f.args) |-> IF f.args[i].f = 0 THEN f.args[i].k ELSE o[2][f.args[i].f]]
(* the condition of an optional field: the first field is not zero *)
Cond(o) == ~IsZero(o[2][1][2])

RECURSIVE ValidObj(_, _, _), FieldValid(_, _, _)
FieldValid(f, args, v) == IF f.arr THEN \A i \in 1..Len(v[2]) : ValidObj(f.t, args, v[2][i]) ELSE ValidObj(f.t, args, v)
ValidObj(t, args, v) ==
    LET T == Types[t] IN
    CASE T.kind = "int" -> IF T.sg THEN FitsS(v[2], T.w) ELSE FitsU(v[2], T.w)
      [] T.kind = "enum" -> \E i \in 1..Len(T.items) : T.items[i][2] = NumOf(t, v)
      [] T.kind = "mask" -> FitsU(v[2], T.w)
      [] T.kind \in {"bool", "string", "extern", "bytes"} -> TRUE
      [] T.kind = "struct" ->
            /\ \A i \in 1..Len(T.params) : ValidObj(T.params[i].t, <<>>, args[i])
            /\ \A i \in 1..Len(T.fields) :
                 LET f == T.fields[i] x == v[2][i] IN
                 /\ f.opt = "if" => (Set(x) = Cond(v))
                 /\ Set(x) => FieldValid(f, ArgsOf(f, v), x)
      [] T.kind = "choice" ->
            /\ \A i \in 1..Len(T.params) : ValidObj(T.params[i].t, <<>>, args[i])
            /\ v[2] = Selected(T, args)
            /\ v[2] # 0 => FieldValid(T.fields[v[2]], <<>>, v[3][1])
      [] T.kind = "union" -> v[2] # 0 /\ FieldValid(T.fields[v[2]], <<>>, v[3][1])

Size(n) == EncVar("sz", NatBits(n, 64))
RECURSIVE Bits(_, _), FieldBits(_, _)
FieldBits(f, v) == IF f.arr THEN Size(Len(v[2])) \o FlattenSeq([i \in 1..Len(v[2]) |-> Bits(f.t, v[2][i])]) ELSE Bits(f.t, v)
Bits(t, v) ==
    LET T == Types[t] IN
    CASE T.kind \in {"int", "enum", "mask", "bool"} -> Last0(v[2], T.w)
      [] T.kind \in {"string", "bytes"} -> Size(Len(v[2])) \o BytesToBits(v[2])
      [] T.kind = "extern" -> Size(Len(v[2])) \o v[2]
      [] T.kind = "struct" -> FlattenSeq([i \in 1..Len(T.fields) |->
            LET f == T.fields[i] x == v[2][i] IN
            (IF f.opt = "auto" THEN <<IF Set(x) THEN 1 ELSE 0>> ELSE <<>>) \o (IF Set(x) THEN FieldBits(f, x) ELSE <<>>)])
      [] T.kind = "choice" -> IF v[2] = 0 THEN <<>> ELSE FieldBits(T.fields[v[2]], v[3][1])
      [] T.kind = "union" -> Size(v[2] - 1) \o FieldBits(T.fields[v[2]], v[3][1])

-----------------------------------------------------------------------------
(* Decoding at 0-based position p of bits: [ok, v, p] *)
Bad == [ok |-> FALSE, v |-> None, p |-> 0]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Bytes8(b) == [i \in 1..(Len(b) \div 8) |-> BitsNat(SubSeq(b, 8*i - 7, 8*i))]
RECURSIVE Dec(_, _, _, _), FieldDec(_, _, _, _)
FieldDec(f, args, bits, p) ==
    IF ~f.arr THEN Dec(f.t, args, bits, p)
    ELSE LET d == DecVar("sz", bits, p, Len(bits))
             most == Len(bits) + 1
             n == IF d.st # "ok" THEN 0 ELSE IF SigLen(d.v) > 20 THEN most ELSE BitsNat(d.v)
             step(a, i) == IF ~a.ok THEN a
                           ELSE LET r == Dec(f.t, args, bits, a.p) IN IF r.ok THEN Got(<<"a", Append(a.v[2], r.v)>>, r.p) ELSE Bad
         IN IF d.st # "ok" THEN Bad
            ELSE FoldLeft(step, Got(<<"a", <<>>>>, p + d.len), [i \in 1..(IF n > most THEN most ELSE n) |-> i])
Dec(t, args, bits, p) ==
    LET T == Types[t] IN
    CASE T.kind \in {"int", "enum", "mask", "bool"} ->
            IF p + T.w > Len(bits) THEN Bad
            ELSE LET raw == SubSeq(bits, p + 1, p + T.w)
                     v == <<"i", IF T.sg THEN SignExt(raw, T.sw) ELSE ZeroExt(raw, T.sw)>>
                 IN IF T.kind \in {"enum", "mask"} /\ ~ValidObj(t, <<>>, v) THEN Bad ELSE Got(v, p + T.w)
      [] T.kind \in {"string", "bytes"} ->
            LET d == DecBlob(bits, p, Len(bits), 8) IN
            IF d.st # "ok" THEN Bad ELSE Got(<<IF T.kind = "string" THEN "s" ELSE "y", Bytes8(d.v)>>, p + d.len)
      [] T.kind = "extern" -> LET d == DecBlob(bits, p, Len(bits), 1) IN IF d.st # "ok" THEN Bad ELSE Got(<<"x", d.v>>, p + d.len)
      [] T.kind = "struct" ->
            LET step(a, i) ==
                    IF ~a.ok THEN a
                    ELSE LET f == T.fields[i]
                             flag == f.opt = "auto"
                             short == flag /\ a.p + 1 > Len(bits)
                             there == CASE f.opt = "no" -> TRUE [] f.opt = "auto" -> ~short /\ bits[a.p + 1] = 1 [] f.opt = "if" -> Cond(a.v)
                             p1 == a.p + (IF flag THEN 1 ELSE 0)
                             r == FieldDec(f, ArgsOf(f, a.v), bits, p1)
                         IN IF short THEN Bad
                            ELSE IF ~there THEN Got(<<"o", Append(a.v[2], None)>>, p1)
                            ELSE IF r.ok THEN Got(<<"o", Append(a.v[2], r.v)>>, r.p) ELSE Bad
            IN FoldLeft(step, Got(<<"o", <<>>>>, p), [i \in 1..Len(T.fields) |-> i])
      [] T.kind = "choice" ->
            LET k == Selected(T, args) IN
            IF k = 0 THEN Got(<<"c", 0, <<>>>>, p)
            ELSE LET r == FieldDec(T.fields[k], <<>>, bits, p) IN IF r.ok THEN Got(<<"c", k, <<r.v>>>>, r.p) ELSE Bad
      [] T.kind = "union" ->
            LET d == DecVar("sz", bits, p, Len(bits)) IN
            IF d.st # "ok" THEN Bad
            ELSE IF SigLen(d.v) > 10 \/ BitsNat(d.v) >= Len(T.fields) THEN Bad
            ELSE LET k == BitsNat(d.v) + 1 r == FieldDec(T.fields[k], <<>>, bits, p + d.len)
                 IN IF r.ok THEN Got(<<"c", k, <<r.v>>>>, r.p) ELSE Bad

-----------------------------------------------------------------------------
(* Order: -1, 0, 1.  Data compare field by field, an absent value is smallest, arrays, strings and bit
   sequences are lexicographic; views compare their parameters first. *)
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
LexInts(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == SelectInSeq([i \in 1..n |-> IF a[i] = b[i] THEN 0 ELSE 1], LAMBDA x : x = 1)
    IN IF d # 0 THEN Sign(a[d], b[d]) ELSE Sign(Len(a), Len(b))
FirstNonZero(s) == LET d == SelectInSeq(s, LAMBDA x : x # 0) IN IF d = 0 THEN 0 ELSE s[d]
RECURSIVE Ord(_, _, _, _, _, _), FieldOrd(_, _, _, _, _, _)
FieldOrd(f, view, aa, ab, a, b) ==
    IF ~Set(a) \/ ~Set(b) THEN Sign(IF Set(a) THEN 1 ELSE 0, IF Set(b) THEN 1 ELSE 0)
    ELSE IF f.arr
    THEN LET n == IF Len(a[2]) < Len(b[2]) THEN Len(a[2]) ELSE Len(b[2])
             d == FirstNonZero([i \in 1..n |-> Ord(f.t, view, aa, ab, a[2][i], b[2][i])])
         IN IF d # 0 THEN d ELSE Sign(Len(a[2]), Len(b[2]))
    ELSE Ord(f.t, view, aa, ab, a, b)
Ord(t, view, aa, ab, a, b) ==
    LET T == Types[t]
        pars == IF ~view \/ ~Compound(t) THEN <<>>
                ELSE [i \in 1..Len(T.params) |-> Ord(T.params[i].t, view, <<>>, <<>>, aa[i], ab[i])]
        own ==
            CASE T.kind \in {"int", "enum"} -> IF a[2] = b[2] THEN 0 ELSE IF T.sg THEN (IF LtS(a[2], b[2]) THEN -1 ELSE 1)
                                                                         ELSE (IF LtU(a[2], b[2]) THEN -1 ELSE 1)
              [] T.kind \in {"mask", "bool", "string", "bytes", "extern"} -> LexInts(a[2], b[2])
              [] T.kind = "struct" -> FirstNonZero([i \in 1..Len(T.fields) |->
                    LET f == T.fields[i] IN FieldOrd(f, view, ArgsOf(f, a), ArgsOf(f, b), a[2][i], b[2][i])])
              [] OTHER -> IF a[2] # b[2] THEN Sign(a[2], b[2])
                          ELSE IF a[2] = 0 THEN 0 ELSE FieldOrd(T.fields[a[2]], view, <<>>, <<>>, a[3][1], b[3][1])
        p == FirstNonZero(pars)
    IN IF p # 0 THEN p ELSE own
(* the six relations and whether the hashes have to agree *)
Rel(o) == <<o = 0, o # 0, o < 0, o <= 0, o > 0, o >= 0>>
=============================================================================
