------------------------------- MODULE Reflect -------------------------------
(* An object seen and changed through reflection.  A place in the object is   *)
(* named by the steps which lead to it: <<"f", field name>>, <<"e", index>>.  *)
EXTENDS Creator, NumText
VARIABLES cons,  \* access is constant
          val    \* the object (a tree of type root)
rvars == <<root, stack, cons, val>>

(* --- places *)
At(t, arr, v) == [how |-> "here", t |-> t, arr |-> arr, v |-> v]
Nowhere(how) == [how |-> how, t |-> "", arr |-> FALSE, v |-> None]
FieldOf(nd, name) ==
    IF nd.arr \/ ~Compound(nd.t) THEN Nowhere("refused")
    ELSE LET i == FieldAt(nd.t, name) f == Types[nd.t].fields[i] IN
         IF i = 0 THEN Nowhere("refused")
         ELSE IF Types[nd.t].kind = "struct"
         THEN (IF Set(nd.v[2][i]) THEN At(f.t, f.arr, nd.v[2][i]) ELSE Nowhere("null"))
         ELSE IF nd.v[2] # i THEN Nowhere("refused") ELSE At(f.t, f.arr, nd.v[3][1])
Elem(nd, n) == IF ~nd.arr \/ n >= Len(nd.v[2]) THEN Nowhere("refused") ELSE At(nd.t, FALSE, nd.v[2][n + 1])
StepTo(nd, s) == IF nd.how # "here" THEN nd ELSE IF s[1] = "f" THEN FieldOf(nd, s[2]) ELSE Elem(nd, s[2])
Locate(t, v, path) == FoldLeft(StepTo, At(t, FALSE, v), path)
(* nothing is found where a step of the path is not possible *)
Find(nd, names) == LET r == FoldLeft(LAMBDA a, n : IF a.how = "here" THEN FieldOf(a, n) ELSE a, nd, names) IN
    IF r.how = "here" THEN r ELSE Nowhere("null")
RECURSIVE PutAt(_, _, _, _, _)
PutAt(t, arr, v, path, x) ==
    IF path = <<>> THEN x
    ELSE LET p == Tail(path) s == Head(path) IN
         IF arr THEN <<"a", [v[2] EXCEPT ![s[2] + 1] = PutAt(t, FALSE, @, p, x)]>>
         ELSE LET i == FieldAt(t, s[2]) f == Types[t].fields[i] IN
              IF Types[t].kind = "struct" THEN <<"o", [v[2] EXCEPT ![i] = PutAt(f.t, f.arr, @, p, x)]>>
              ELSE <<"c", i, <<PutAt(f.t, f.arr, v[3][1], p, x)>>>>

(* --- values given: additionally <<"arr", type, tree>> and <<"cpp", width, signed, bits>> *)
Given(t, arr, opt, x) ==
    LET T == Types[t]
        number == T.kind \in {"int", "bool", "enum", "mask"}
        known(v) == IF T.kind # "enum" \/ ValidObj(t, <<>>, v) THEN v ELSE Refused
    IN CASE x[1] = "null" -> IF opt THEN None ELSE Refused
         [] x[1] = "arr" -> IF arr /\ x[2] = t THEN x[3] ELSE Refused
         [] x[1] = "obj" -> IF arr THEN Refused
                            ELSE IF x[2] = t THEN x[3]
                            ELSE LET W == Types[x[2]] IN
                                 IF T.kind \in {"enum", "mask"} /\ W.kind = "int" /\ W.w = T.w /\ W.sg = T.sg THEN known(x[3]) ELSE Refused
         [] x[1] = "cpp" -> IF ~arr /\ number THEN (IF T.sw = x[2] /\ T.sg = x[3] THEN known(<<"i", x[4]>>) ELSE Refused) ELSE Refused
         [] OTHER -> Refused

(* --- calls at a place: accepted or not, what is there afterwards, and the place returned *)
Yes(v, r) == [ok |-> TRUE, v |-> v, r |-> r]
No(nd) == [ok |-> FALSE, v |-> nd.v, r |-> Nowhere("refused")]
Quiet == Nowhere("null")
Apply(nd, op, a) ==
    LET T == Types[nd.t]
        comp == ~nd.arr /\ Compound(nd.t)
        i == IF comp THEN FieldAt(nd.t, a.n) ELSE 0
        f == T.fields[i]
    IN CASE op = "get" -> LET r == FieldOf(nd, a.n) IN IF r.how = "refused" THEN No(nd) ELSE Yes(nd.v, r)
         [] op = "at" -> LET r == Elem(nd, a.i) IN IF r.how = "refused" THEN No(nd) ELSE Yes(nd.v, r)
         [] op = "find" -> Yes(nd.v, Find(nd, a.names))
         [] op = "any" -> Yes(nd.v, nd)
         [] op = "set" -> IF i = 0 THEN No(nd)
                          ELSE LET x == Given(f.t, f.arr, f.opt # "no", a.v) IN IF IsNo(x) THEN No(nd) ELSE Yes(Put(nd.t, nd.v, i, x), Quiet)
         [] op = "create" -> IF i = 0 THEN No(nd)
                             ELSE LET x == FieldDefault([f EXCEPT !.opt = "no"]) IN Yes(Put(nd.t, nd.v, i, x), At(f.t, f.arr, x))
         [] op = "resize" -> IF ~nd.arr THEN No(nd)
                             ELSE Yes(<<"a", [k \in 1..a.i |-> IF k <= Len(nd.v[2]) THEN nd.v[2][k] ELSE Default(nd.t)]>>, Quiet)
         [] op = "append" -> IF ~nd.arr THEN No(nd)
                             ELSE LET x == Given(nd.t, FALSE, FALSE, a.v) IN IF IsNo(x) THEN No(nd) ELSE Yes(<<"a", Append(nd.v[2], x)>>, Quiet)
         [] op = "setAt" -> IF ~nd.arr THEN No(nd)
                            ELSE IF a.i >= Len(nd.v[2]) THEN No(nd)
                            ELSE LET x == Given(nd.t, FALSE, FALSE, a.v) IN IF IsNo(x) THEN No(nd) ELSE Yes(<<"a", [nd.v[2] EXCEPT ![a.i + 1] = x]>>, Quiet)
            \* assigning to what the reference in the any value refers to
         [] op = "assign" -> Yes(a.v[3], Quiet)
(* on constant access every call which could change something is refused; looking for something finds nothing *)
Forced(nd, op, a) ==
    IF op = "find" THEN Yes(nd.v, Nowhere("null"))
    ELSE IF ~nd.arr /\ ~Compound(nd.t) /\ op = "any" THEN Yes(nd.v, nd) ELSE No(nd)

Start(t, c, v) == root = t /\ stack = <<>> /\ cons = c /\ val = v
(* the outcome of a call and the object afterwards *)
Outcome(path, op, a, forced) ==
    LET nd == Locate(root, val, path) IN
    IF nd.how # "here" THEN [how |-> nd.how, r |-> Nowhere(nd.how), v |-> val]
    ELSE LET e == IF forced THEN Forced(nd, op, a) ELSE Apply(nd, op, a) IN
         [how |-> IF e.ok THEN "done" ELSE "refused", r |-> e.r, v |-> IF e.ok THEN PutAt(root, FALSE, val, path, e.v) ELSE val]
Changing == {"set", "create", "resize", "append", "setAt", "assign"}
Do(path, op, a, forced) ==
    /\ cons => op \notin Changing \/ forced
    /\ val' = Outcome(path, op, a, forced).v
    /\ UNCHANGED <<root, stack, cons>>

(* --- what accessors yield *)
Nay == <<"no", <<>>>>
Aye(x) == <<"v", x>>
IntToDouble(b, sg) ==
    LET neg == sg /\ b[1] = 1
        m == IF neg THEN Negate(b) ELSE b
        n == SigLen(m)
        s == Last0(m, n)
        top == SubSeq(s, 1, 53)
        rest == SubSeq(s, 54, n)
        half == rest[1] = 1 /\ IsZero(Tail(rest))
        up == rest[1] = 1 /\ (~half \/ top[53] = 1)
        sum == IF up THEN Add(<<0>> \o top, NatBits(1, 54)) ELSE <<0>> \o top
        wide == sum[1] = 1
        sign == <<IF neg THEN 1 ELSE 0>>
    IN IF n = 0 THEN Zero(64)
       ELSE IF n <= 53 THEN sign \o NatBits(1022 + n, 11) \o Tail(s) \o Zero(53 - n)
       ELSE sign \o NatBits(1022 + n + (IF wide THEN 1 ELSE 0), 11) \o (IF wide THEN SubSeq(sum, 2, 53) ELSE SubSeq(sum, 3, 54))
SingleToDouble(f) ==
    LET e == BitsNat(SubSeq(f, 2, 9)) m == SubSeq(f, 10, 32) n == SigLen(m) IN
    <<f[1]>> \o (IF e = 255 THEN NatBits(2047, 11) \o m \o Zero(29)
                 ELSE IF e > 0 THEN NatBits(e + 896, 11) \o m \o Zero(29)
                 ELSE IF n = 0 THEN Zero(63)
                 ELSE NatBits(873 + n, 11) \o Tail(Last0(m, n)) \o Zero(53 - n))
Bar == <<32, 124, 32>>
MaskItems(T, b) ==
    FoldLeft(LAMBDA a, it : LET m == NatBits(it[2], Len(b)) IN
                IF \A k \in 1..Len(b) : m[k] = 1 => b[k] = 1 THEN (IF a = <<>> THEN Codes(it[1]) ELSE a \o Bar \o Codes(it[1])) ELSE a,
             <<>>, T.items)
ItemName(T, t, v) == LET m == {k \in 1..Len(T.items) : T.items[k][2] = NumOf(t, v)} IN
    IF m = {} THEN Nay ELSE Aye(Codes(T.items[CHOOSE k \in m : TRUE][1]))
Order == <<"bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "float", "double", "bytes", "string", "extern", "toInt", "toUInt", "toDouble", "toString">>
Own(sw, sg) == CASE sw = 8 -> IF sg THEN "i8" ELSE "u8" [] sw = 16 -> IF sg THEN "i16" ELSE "u16"
                 [] sw = 32 -> IF sg THEN "i32" ELSE "u32" [] sw = 64 -> IF sg THEN "i64" ELSE "u64" [] OTHER -> "bool"
AccInt(b, sw, sg, text) ==
    LET wide == IF sg THEN SignExt(b, 64) ELSE ZeroExt(b, 64) IN
    [k \in 1..Len(Order) |->
        CASE Order[k] = Own(sw, sg) -> Aye(b)
          [] Order[k] = (IF sg THEN "toInt" ELSE "toUInt") -> Aye(wide)
          [] Order[k] = "toDouble" -> Aye(IntToDouble(wide, sg))
          [] Order[k] = "toString" -> text
          [] OTHER -> Nay]
Only(x, at) == [k \in 1..Len(Order) |-> IF Order[k] \in at THEN Aye(x) ELSE Nay]
AccOf(kind, sw, sg, x) ==
    CASE kind = "int" -> AccInt(x, sw, sg, Aye(IF sg THEN SText(x) ELSE UText(x)))
      [] kind = "bool" -> AccInt(x, 1, FALSE, Aye(BoolText(x = <<1>>)))
      [] kind = "string" -> Only(x, {"string", "toString"})
      [] kind = "bytes" -> Only(x, {"bytes"})
      [] kind = "extern" -> Only(x, {"extern"})
      [] kind = "single" -> [k \in 1..Len(Order) |-> CASE Order[k] = "float" -> Aye(x) [] Order[k] = "toDouble" -> Aye(SingleToDouble(x)) [] OTHER -> Nay]
      [] kind = "double" -> Only(x, {"double", "toDouble"})
Acc(t, v) ==
    LET T == Types[t] IN
    CASE T.kind = "enum" -> AccInt(v[2], T.sw, T.sg, ItemName(T, t, v))
      [] T.kind = "mask" -> AccInt(v[2], T.sw, FALSE, Aye(UText(v[2]) \o <<91>> \o MaskItems(T, v[2]) \o <<93>>))
      [] OTHER -> AccOf(T.kind, T.sw, T.sg, v[2])
NoAcc == [k \in 1..Len(Order) |-> Nay]
(* everything there is to see at a place *)
Seen(nd) == [arr |-> nd.arr, t |-> nd.t, tree |-> nd.v,
             size |-> IF nd.arr THEN Len(nd.v[2]) ELSE -1,
             choice |-> IF nd.arr \/ Types[nd.t].kind \notin {"choice", "union"} THEN "-"
                        ELSE IF nd.v[2] = 0 THEN "" ELSE Types[nd.t].fields[nd.v[2]].n,
             acc |-> IF nd.arr \/ Compound(nd.t) THEN NoAcc ELSE Acc(nd.t, nd.v)]

(* --- deep comparison *)
Same(a, b) == IF a.how # "here" \/ b.how # "here" THEN a.how # "here" /\ b.how # "here"
              ELSE a.t = b.t /\ a.arr = b.arr /\ a.v = b.v
(* doubles are compared up to rounding: equal where they are neighbours, different where they are not close *)
DExpOf(d) == BitsNat(SubSeq(d, 2, 12))
DNaN(d) == DExpOf(d) = 2047 /\ ~IsZero(SubSeq(d, 13, 64))
DInf(d) == DExpOf(d) = 2047 /\ IsZero(SubSeq(d, 13, 64))
Dist(a, b) == LET x == Tail(a) y == Tail(b) IN IF LtU(x, y) THEN Sub(y, x) ELSE Sub(x, y)
Close(a, b) ==
    IF DNaN(a) \/ DNaN(b) THEN {DNaN(a) /\ DNaN(b)}
    ELSE IF DInf(a) \/ DInf(b) THEN {a = b}
    ELSE IF a[1] = b[1]
    THEN LET s == SigLen(Dist(a, b)) IN
         IF s <= 1 THEN {TRUE} ELSE IF s > 3 /\ (DExpOf(a) > 60 \/ DExpOf(b) > 60) THEN {FALSE} ELSE {TRUE, FALSE}
    ELSE IF IsZero(Tail(a)) /\ IsZero(Tail(b)) THEN {TRUE}
    ELSE IF DExpOf(a) > 1 \/ DExpOf(b) > 1 THEN {FALSE} ELSE {TRUE, FALSE}
=============================================================================
