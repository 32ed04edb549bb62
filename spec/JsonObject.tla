----------------------------- MODULE JsonObject -----------------------------
(* Objects as JSON: the text a writer makes of an object and the object a     *)
(* reader makes of a text.                                                    *)
EXTENDS Creator, Integers
J == INSTANCE JsonText
N == INSTANCE NumText
-----------------------------------------------------------------------------
(* Writing: w is [ind: blanks per level, or -1 for one line, item, key: separators, names: enumerations by name] *)
Join(items, sep) == FlattenSeq([i \in 1..Len(items) |-> IF i = 1 THEN items[i] ELSE sep \o items[i]])
NewLine(w, lvl) == IF w.ind < 0 THEN <<>> ELSE <<10>> \o [i \in 1..(w.ind * lvl) |-> 32]
Within(w, lvl, open, items, close) ==
    open \o Join([i \in 1..Len(items) |-> NewLine(w, lvl + 1) \o items[i]], w.item) \o NewLine(w, lvl) \o close
Number(b, sg) == IF sg THEN N!SText(b) ELSE N!UText(b)
Text(w) == Codes(w)
Buffer == <<98, 117, 102, 102, 101, 114>>
BitSize == <<98, 105, 116, 83, 105, 122, 101>>
NoMatch == <<32, 47, 42, 32, 110, 111, 32, 109, 97, 116, 99, 104, 32, 42, 47>>
Partial == <<32, 47, 42, 32, 112, 97, 114, 116, 105, 97, 108, 32, 109, 97, 116, 99, 104, 58, 32>>
EnumName(T, v) == LET m == {i \in 1..Len(T.items) : T.items[i][2] = (IF T.sg THEN Num(v) ELSE BitsNat(v[2]))}
                  IN IF m = {} THEN Number(v[2], T.sg) \o NoMatch ELSE Text(T.items[CHOOSE i \in m : TRUE][1])
Covers(b, x) == \A i \in 1..Len(b) : x[i] = 1 => b[i] = 1
MaskName(T, v) ==
    LET b == v[2]
        ins == SelectSeq(T.items, LAMBDA it : LET x == NatBits(it[2], T.sw) IN IF it[2] = 0 THEN IsZero(b) ELSE Covers(b, x))
        names == Join([i \in 1..Len(ins) |-> Text(ins[i][1])], <<32, 124, 32>>)
        all == FoldLeft(LAMBDA a, it : Both(a, NatBits(it[2], T.sw)), Zero(T.sw), ins)
    IN IF ins = <<>> THEN N!UText(b) \o NoMatch
       ELSE IF all # b THEN N!UText(b) \o Partial \o names \o <<32, 42, 47>> ELSE names
Key(w, k) == J!EncStr(k) \o w.key
ByteItems(bs) == [i \in 1..Len(bs) |-> N!UText(NatBits(bs[i], 8))]
PadBytes(b) == LET n == (8 - (Len(b) % 8)) % 8 IN Bytes8(b \o Zero(n))
RECURSIVE ValueText(_, _, _, _), FieldText(_, _, _, _)
FieldText(w, lvl, f, v) ==
    IF ~Set(v) THEN J!Words[1].w
    ELSE IF f.arr THEN Within(w, lvl, <<91>>, [i \in 1..Len(v[2]) |-> ValueText(w, lvl + 1, f.t, v[2][i])], <<93>>)
    ELSE ValueText(w, lvl, f.t, v)
ValueText(w, lvl, t, v) ==
    LET T == Types[t]
        member(f, x) == Key(w, Text(f.n)) \o FieldText(w, lvl + 1, f, x)
        bytes(bs) == Key(w, Buffer) \o Within(w, lvl + 1, <<91>>, ByteItems(bs), <<93>>)
    IN CASE T.kind = "int" -> Number(v[2], T.sg)
         [] T.kind = "bool" -> IF v[2] = <<1>> THEN J!Words[2].w ELSE J!Words[3].w
         [] T.kind = "string" -> J!EncStr(v[2])
         [] T.kind = "enum" -> IF w.names THEN J!EncStr(EnumName(T, v)) ELSE Number(v[2], T.sg)
         [] T.kind = "mask" -> IF w.names THEN J!EncStr(MaskName(T, v)) ELSE N!UText(v[2])
         [] T.kind = "bytes" -> Within(w, lvl, <<123>>, <<bytes(v[2])>>, <<125>>)
         [] T.kind = "extern" -> Within(w, lvl, <<123>>, <<bytes(PadBytes(v[2])), Key(w, BitSize) \o N!UText(NatBits(Len(v[2]), 32))>>, <<125>>)
         [] T.kind = "struct" -> Within(w, lvl, <<123>>, [i \in 1..Len(T.fields) |-> member(T.fields[i], v[2][i])], <<125>>)
         [] OTHER -> Within(w, lvl, <<123>>, IF v[2] = 0 THEN <<>> ELSE <<member(T.fields[v[2]], v[3][1])>>, <<125>>)
-----------------------------------------------------------------------------
(* Reading: the parser's events become calls of the tree creator; byte and bit buffers are objects of their own. *)
(* a: [t: type, s: open levels, key: of the member, blob: what is open of a buffer, ok, v: the object when complete] *)
NoBlob == [on |-> FALSE, t |-> "", at |-> "", bytes |-> <<>>, has |-> FALSE, size |-> -1]
Fresh(t) == [t |-> t, s |-> <<>>, key |-> "", blob |-> NoBlob, done |-> FALSE, v |-> <<>>]
(* numbers of the text as 64 bits *)
Times10000(b) == LET Sh(n) == SubSeq(b, n + 1, 64) \o Zero(n) IN Add(Add(Add(Sh(13), Sh(10)), Add(Sh(9), Sh(8))), Sh(4))
WordOf(big) == FoldLeft(LAMBDA b, d : Add(Times10000(b), NatBits(d, 64)), Zero(64), Reverse(big))
Given(v) == CASE v.k = "null" -> <<"null">>
              [] v.k = "true" -> <<"bool", TRUE>>
              [] v.k = "false" -> <<"bool", FALSE>>
              [] v.k = "str" -> <<"str", v.v>>
              [] v.k = "uint" -> <<"int", FALSE, WordOf(v.v)>>
              [] v.k = "int" -> <<"int", v.v # <<>>, Negate(WordOf(v.v))>>
              [] OTHER -> <<"dbl">>
(* field named by the characters of a key *)
NameOf(t, k) == LET fs == Types[t].fields
                    i == SelectInSeq(fs, LAMBDA f : Codes(f.n) = k)
                IN IF i = 0 THEN "?" ELSE fs[i].n
Below(a) == IF a.s = <<>> THEN "none" ELSE IF a.s[Len(a.s)].arr THEN "array" ELSE "compound"
Do(a, op, val) == LET r == EffectWith(a.t, a.s, op, a.key, val) IN IF r.ok THEN [ok |-> TRUE, a |-> [a EXCEPT !.s = r.s]] ELSE [ok |-> FALSE, a |-> a]
Refuse(a) == [ok |-> FALSE, a |-> a]
Take(a) == [ok |-> TRUE, a |-> a]
(* the type of what comes next *)
NextType(a) == LET top == a.s[Len(a.s)] IN
    IF top.arr THEN top.t ELSE LET i == FieldAt(top.t, a.key) IN IF i = 0 THEN "?" ELSE Types[top.t].fields[i].t
BlobValue(b) == IF b.t = "bytes" THEN <<"obj", "bytes", <<"y", b.bytes>>>>
                ELSE <<"obj", "extern", <<"x", SubSeq(BytesToBits(b.bytes), 1, b.size)>>>>
Give(a, val) == IF Below(a) = "none" THEN Refuse(a) ELSE Do(a, IF Below(a) = "array" THEN "addValueElement" ELSE "setValue", val)
OnBlob(a, ev, v) ==
    LET b == a.blob IN
    CASE ev = "key" -> IF b.at # "" THEN Refuse(a)
                       ELSE IF v.v = Buffer THEN Take([a EXCEPT !.blob.at = "buffer"])
                       ELSE IF v.v = BitSize /\ b.t = "extern" THEN Take([a EXCEPT !.blob.at = "size"]) ELSE Refuse(a)
      [] ev = "beginArray" -> IF b.at = "buffer" THEN Take([a EXCEPT !.blob.at = "bytes", !.blob.bytes = <<>>, !.blob.has = TRUE]) ELSE Refuse(a)
      [] ev = "endArray" -> IF b.at = "bytes" THEN Take([a EXCEPT !.blob.at = ""]) ELSE Refuse(a)
      [] ev = "value" -> IF v.k # "uint" THEN Refuse(a)
                         ELSE IF b.at = "bytes" THEN (IF J!CmpBig(v.v, <<256>>) = -1
                              THEN Take([a EXCEPT !.blob.bytes = Append(@, IF v.v = <<>> THEN 0 ELSE v.v[1])]) ELSE Refuse(a))
                         \* sizes which cannot fit are remembered as a large one
                         ELSE IF b.at = "size" THEN Take([a EXCEPT !.blob.at = "", !.blob.size = IF Len(v.v) > 2 THEN 100000000
                                                          ELSE FoldLeft(LAMBDA x, d : 10000 * x + d, 0, Reverse(v.v))])
                         ELSE Refuse(a)
      [] ev = "endObject" -> IF b.at # "" \/ ~b.has \/ (b.t = "extern" /\ (b.size < 0 \/ b.size > 8 * Len(b.bytes))) THEN Refuse(a)
                             ELSE Give([a EXCEPT !.blob = NoBlob], BlobValue(b))
      [] OTHER -> Refuse(a)
(* one event of the parser *)
On(a, ev, v) ==
    IF a.blob.on THEN OnBlob(a, ev, v)
    ELSE CASE ev = "key" -> Take([a EXCEPT !.key = NameOf(a.s[Len(a.s)].t, v.v)])
           [] ev = "value" -> Give(a, Given(v))
           [] ev = "beginArray" -> IF Below(a) # "compound" THEN Refuse(a) ELSE Do(a, "beginArray", <<>>)
           [] ev = "endArray" -> Do(a, "endArray", <<>>)
           [] ev = "beginObject" -> IF Below(a) = "none" THEN Do(a, "beginRoot", <<>>)
                                    ELSE IF NextType(a) = "?" THEN Refuse(a)
                                    ELSE IF NextType(a) \in {"extern", "bytes"} THEN Take([a EXCEPT !.blob = [NoBlob EXCEPT !.on = TRUE, !.t = NextType(a)]])
                                    ELSE Do(a, IF Below(a) = "array" THEN "beginCompoundElement" ELSE "beginCompound", <<>>)
           [] ev = "endObject" -> IF Len(a.s) = 1 THEN Take([a EXCEPT !.s = <<>>, !.done = TRUE, !.v = a.s[1].v])
                                  ELSE Do(a, IF a.s[Len(a.s) - 1].arr THEN "endCompoundElement" ELSE "endCompound", <<>>)
(* Reading one object from position st of a text.  r: what has come out: "go" on, "ok", "end" (nothing was there), *)
(* "refused" (what is left starts at st) or "broken" (the text cannot be read any further)                         *)
Step(text, q) ==
    IF q.r # "go" THEN q
    ELSE LET k == J!Tok(text, q.st)
             fresh == q.g = "E" /\ q.open = <<>> /\ ~q.a.done /\ q.first
             p == J!Parse(q.g, q.open, k.tok, k.val.k = "str")
             o == On(q.a, p.ev, k.val)
             n == [q EXCEPT !.st = k.st, !.g = p.s, !.open = p.stack, !.first = FALSE]
             holds == p.ev \in {"value", "key"}      \* its token is still there when the event is told
             after == J!Tok(text, k.st)
         IN IF q.g = "D" THEN (IF k.tok = "ERROR" THEN [q EXCEPT !.r = "broken"] ELSE [q EXCEPT !.r = "ok"])
            ELSE IF fresh /\ k.tok = "END_OF_FILE" THEN [q EXCEPT !.r = "end"]
            ELSE IF k.tok = "ERROR" THEN [q EXCEPT !.r = "broken"]
            ELSE IF ~p.ok THEN [q EXCEPT !.r = "refused"]
            ELSE IF p.ev = "none" THEN n
            ELSE IF ~holds /\ after.tok = "ERROR" THEN [q EXCEPT !.r = "broken"]
            ELSE IF ~o.ok THEN [q EXCEPT !.r = "refused", !.st = IF holds THEN q.st ELSE k.st]
            ELSE [n EXCEPT !.a = o.a]
Read(t, text, st) == FoldLeft(LAMBDA q, i : Step(text, q),
    [st |-> st, g |-> "E", open |-> <<>>, a |-> Fresh(t), first |-> TRUE, r |-> "go"], [i \in 1..(Len(text) + 2) |-> i])
=============================================================================
