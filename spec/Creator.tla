------------------------------- MODULE Creator -------------------------------
(* Building an object call by call.  Every call is either accepted and does   *)
(* what it says, or is refused and changes nothing.                           *)
EXTENDS Schema
VARIABLES root,  \* type of the object to build
          stack  \* open levels: [t: type, arr: an array of t, at: field of the level below, v: what is there so far]
vars == <<root, stack>>

Zero(n) == [i \in 1..n |-> 0]
RECURSIVE Default(_)
FieldDefault(f) == IF f.opt # "no" THEN None ELSE IF f.arr THEN <<"a", <<>>>> ELSE Default(f.t)
Default(t) ==
    LET T == Types[t] IN
    CASE T.kind \in {"int", "enum", "mask", "bool"} -> <<"i", Zero(T.sw)>>
      [] T.kind = "string" -> <<"s", <<>>>>
      [] T.kind = "bytes" -> <<"y", <<>>>>
      [] T.kind = "extern" -> <<"x", <<>>>>
      [] t \in {"DebugStringObject", "DebugStringParamObject"} -> <<"o", << <<"s", <<116, 101, 115, 116>> >> >> >> \* "test"
      [] T.kind = "struct" -> <<"o", [i \in 1..Len(T.fields) |-> FieldDefault(T.fields[i])]>>
      [] OTHER -> <<"c", 0, <<>>>>

(* Values given: <<"null">>, <<"bool", b>>, <<"int", negative, 64 bits>>, <<"dbl">>, <<"str", bytes>>,
   <<"obj", type, tree>> (a value of exactly that type).  The value a field of type t gets, or Refused. *)
Refused == <<"refused">>
FitsStore(v, T) == LET b == v[3] IN
    IF T.sg THEN (IF v[2] THEN FitsS(b, T.sw) ELSE b[1] = 0 /\ FitsS(b, T.sw)) ELSE ~v[2] /\ FitsU(b, T.sw)
RawInt(v, T) == <<"i", Last0(v[3], T.sw)>>
Both(a, b) == [i \in 1..Len(a) |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0]
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
CodeOf == [c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
                  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
                  "0","1","2","3","4","5","6","7","8","9","_"} |->
            LET up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ" lo == "abcdefghijklmnopqrstuvwxyz" di == "0123456789"
                In(s) == {i \in 1..Len(s) : SubSeq(s, i, i) = c}
            IN IF In(up) # {} THEN 64 + (CHOOSE i \in In(up) : TRUE) ELSE IF In(lo) # {} THEN 96 + (CHOOSE i \in In(lo) : TRUE)
               ELSE IF In(di) # {} THEN 47 + (CHOOSE i \in In(di) : TRUE) ELSE 95]
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
EnumText(T, s) == LET m == {i \in 1..Len(T.items) : Codes(T.items[i][1]) = s} IN
    IF m = {} THEN Refused ELSE LET x == T.items[CHOOSE i \in m : TRUE][2] IN
    <<"i", IF x < 0 THEN SignExt(<<1>> \o NatBits(2^7 + x, 7), T.sw) ELSE NatBits(x, T.sw)>>
(* names of a bitmask one after another, separated by blanks and at most one bar *)
RECURSIVE MaskText(_, _, _, _), SkipBlank(_, _)
SkipBlank(s, p) == IF p <= Len(s) /\ s[p] = 32 THEN SkipBlank(s, p + 1) ELSE p
MaskText(T, s, p, acc) ==
    LET fits(i) == LET n == Codes(T.items[i][1]) IN
            /\ p + Len(n) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(n) - 1) = n
            /\ (p + Len(n) > Len(s) \/ s[p + Len(n)] \in {32, 124})
        m == {i \in 1..Len(T.items) : fits(i)}
    IN IF m = {} THEN Refused
       ELSE LET it == T.items[CHOOSE i \in m : TRUE]
                q == p + Len(it[1])
                a == Both(acc, NatBits(it[2], T.sw))
                q1 == SkipBlank(s, q)
                q2 == SkipBlank(s, IF q1 <= Len(s) /\ s[q1] = 124 THEN q1 + 1 ELSE q1)
            IN IF q > Len(s) THEN <<"i", a>> ELSE MaskText(T, s, q2, a)
DigitRun(s) == LET n == SelectInSeq(s, LAMBDA c : c < 48 \/ c > 57) IN IF n = 0 THEN s ELSE SubSeq(s, 1, n - 1)
(* a number as text: leading zeros do not count; more than 18 digits never fit the masks used here *)
SigDigits(s) == LET z == SelectInSeq(s, LAMBDA c : c # 48) IN IF z = 0 THEN <<>> ELSE SubSeq(s, z, Len(s))
ValOf(s) == FoldLeft(LAMBDA a, c : IF a > 100000000 THEN a ELSE a * 10 + (c - 48), 0, s)
MaskNumber(T, s) == LET n == SigDigits(DigitRun(s)) x == ValOf(n) IN
    IF T.sw < 28 THEN (IF x < 2^T.sw THEN <<"i", NatBits(x, T.sw)>> ELSE Refused)
    ELSE IF Len(n) <= 8 THEN <<"i", NatBits(x, T.sw)>> ELSE <<"unknown">> \* not driven
Conv(t, v) ==
    LET T == Types[t]
        raw == IF v[1] = "int" /\ T.kind \in {"int", "enum", "mask"} /\ FitsStore(v, T) THEN RawInt(v, T) ELSE Refused
            \* a value of an enumeration or a bitmask can be given as a value of its underlying type
        under(u) == LET W == Types[u] IN T.kind \in {"enum", "mask"} /\ W.kind = "int" /\ W.w = T.w /\ W.sg = T.sg
    IN CASE v[1] = "obj" -> IF v[2] = t \/ (under(v[2]) /\ (T.kind = "mask" \/ ValidObj(t, <<>>, v[3]))) THEN v[3] ELSE Refused
         [] T.kind = "bool" -> IF v[1] = "bool" THEN <<"i", <<IF v[2] THEN 1 ELSE 0>>>> ELSE Refused
         [] T.kind = "int" -> raw
         [] T.kind = "string" -> IF v[1] = "str" THEN <<"s", v[2]>> ELSE Refused
         [] T.kind = "enum" -> IF v[1] = "str" THEN EnumText(T, v[2])
                               ELSE IF raw # Refused /\ ValidObj(t, <<>>, raw) THEN raw ELSE Refused
         [] T.kind = "mask" -> IF v[1] = "str"
                               THEN (IF v[2] = <<>> THEN Refused ELSE IF Letter(v[2][1]) THEN MaskText(T, v[2], 1, Zero(T.sw))
                                     ELSE IF v[2][1] >= 48 /\ v[2][1] <= 57 THEN MaskNumber(T, v[2]) ELSE Refused)
                               ELSE raw
         [] OTHER -> Refused

-----------------------------------------------------------------------------
InOf(st, kind) == IF st = <<>> THEN kind = "before" ELSE IF st[Len(st)].arr THEN kind = "array" ELSE kind = "compound"
FieldAt(t, name) == LET fs == Types[t].fields IN SelectInSeq(fs, LAMBDA f : f.n = name)
Put(t, v, i, x) == IF Types[t].kind = "struct" THEN <<"o", [v[2] EXCEPT ![i] = x]>> ELSE <<"c", i, <<x>>>>
(* the innermost level is complete and becomes part of the one below *)
PopOf(st) == LET below == st[Len(st) - 1]
                 top == st[Len(st)] IN
       Append(SubSeq(st, 1, Len(st) - 2),
              [below EXCEPT !.v = IF below.arr THEN <<"a", Append(@[2], top.v)>> ELSE Put(below.t, @, top.at, top.v)])
IsNo(r) == r = Refused
(* what a call does with open levels st of an object of type rt: accepted or not, and the levels afterwards *)
EffectWith(rt, st, op, name, val) ==
    LET top == st[Len(st)]
        In(kind) == InOf(st, kind)
        Push(fr) == Append(st, fr)
        SetTop(fr) == [st EXCEPT ![Len(st)] = fr]
        Yes(s) == [ok |-> TRUE, s |-> s]
        No == [ok |-> FALSE, s |-> st]
        i == IF In("compound") THEN FieldAt(top.t, name) ELSE 0
        f == Types[top.t].fields[i]
        fresh == Types[top.t].kind # "struct" \/ f.opt # "no"
    IN CASE op = "beginRoot" -> IF In("before") THEN Yes(<<[t |-> rt, arr |-> FALSE, at |-> 0, v |-> Default(rt)]>>) ELSE No
         [] op = "endRoot" -> IF Len(st) = 1 /\ In("compound") THEN Yes(<<>>) ELSE No
         [] op = "beginArray" -> IF i # 0 THEN (IF f.arr THEN Yes(Push([t |-> f.t, arr |-> TRUE, at |-> i, v |-> <<"a", <<>>>>])) ELSE No) ELSE No
         [] op = "endArray" -> IF In("array") THEN Yes(PopOf(st)) ELSE No
         [] op = "beginCompound" ->
                IF i # 0
                THEN (IF ~f.arr /\ Compound(f.t)
                      THEN Yes(Push([t |-> f.t, arr |-> FALSE, at |-> i, v |-> IF fresh THEN Default(f.t) ELSE top.v[2][i]]))
                      ELSE No)
                ELSE No
         [] op = "endCompound" -> IF In("compound") /\ Len(st) > 1 THEN (IF top.at # 0 THEN Yes(PopOf(st)) ELSE No) ELSE No
         [] op = "beginCompoundElement" ->
                IF In("array") THEN (IF Compound(top.t) THEN Yes(Push([t |-> top.t, arr |-> FALSE, at |-> 0, v |-> Default(top.t)])) ELSE No) ELSE No
         [] op = "endCompoundElement" -> IF In("compound") /\ Len(st) > 1 THEN (IF top.at = 0 THEN Yes(PopOf(st)) ELSE No) ELSE No
         [] op = "setValue" ->
                IF i = 0 THEN No
                ELSE IF val[1] = "null"
                THEN Yes(SetTop([top EXCEPT !.v = Put(top.t, @, i, IF f.opt # "no" THEN None ELSE FieldDefault(f))]))
                ELSE IF f.arr THEN No
                ELSE LET x == Conv(f.t, val) IN IF IsNo(x) THEN No ELSE Yes(SetTop([top EXCEPT !.v = Put(top.t, @, i, x)]))
         [] op = "addValueElement" ->
                IF ~In("array") THEN No
                ELSE LET x == Conv(top.t, val) IN IF IsNo(x) THEN No ELSE Yes(SetTop([top EXCEPT !.v = <<"a", Append(@[2], x)>>]))
         [] op = "getFieldType" -> IF i # 0 THEN Yes(st) ELSE No
         [] op = "getElementType" -> IF In("array") THEN Yes(st) ELSE No
Effect(op, name, val) == EffectWith(root, stack, op, name, val)
Top == stack[Len(stack)]
(* the type a query is answered with *)
Asked(op, name) == IF op = "getFieldType" THEN Types[Top.t].fields[FieldAt(Top.t, name)].t ELSE Top.t

Init(r) == root = r /\ stack = <<>>
Call(op, name, val) == stack' = Effect(op, name, val).s /\ UNCHANGED root

(* the calls which build a given object *)
RECURSIVE Build(_, _), BuildField(_, _)
ToVal(t, v) == CASE Types[t].kind = "bool" -> <<"bool", v[2] = <<1>> >>
                 [] Types[t].kind = "string" -> <<"str", v[2]>>
                 [] OTHER -> <<"obj", t, v>>
BuildField(f, v) ==
    IF ~Set(v) THEN << <<"setValue", f.n, <<"null">> >> >>
    ELSE IF f.arr THEN << <<"beginArray", f.n, <<>> >> >>
         \o FlattenSeq([i \in 1..Len(v[2]) |-> IF Compound(f.t) THEN << <<"beginCompoundElement", "", <<>> >> >> \o Build(f.t, v[2][i]) \o << <<"endCompoundElement", "", <<>> >> >>
                                               ELSE << <<"addValueElement", "", ToVal(f.t, v[2][i])>> >>])
         \o << <<"endArray", "", <<>> >> >>
    ELSE IF Compound(f.t) THEN << <<"beginCompound", f.n, <<>> >> >> \o Build(f.t, v) \o << <<"endCompound", "", <<>> >> >>
    ELSE << <<"setValue", f.n, ToVal(f.t, v)>> >>
Build(t, v) == LET T == Types[t] IN
    IF T.kind = "struct" THEN FlattenSeq([i \in 1..Len(T.fields) |-> BuildField(T.fields[i], v[2][i])])
    ELSE IF v[2] = 0 THEN <<>> ELSE BuildField(T.fields[v[2]], v[3][1])
=============================================================================
