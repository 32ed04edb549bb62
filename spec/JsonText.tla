-------------------------------- MODULE JsonText --------------------------------
(* Texts of JSON (sequences of character codes): scalar values, tokens with   *)
(* their positions, and the grammar as a pushdown automaton.                  *)
EXTENDS Decimal
IsDigit(c) == c >= 48 /\ c <= 57
At(t, p) == IF p <= Len(t) THEN t[p] ELSE -1
RECURSIVE Digits(_, _)
Digits(t, p) == IF IsDigit(At(t, p)) THEN Digits(t, p + 1) ELSE p         \* first position behind
Words == <<[w |-> <<110, 117, 108, 108>>, k |-> "null"],
           [w |-> <<116, 114, 117, 101>>, k |-> "true"],
           [w |-> <<102, 97, 108, 115, 101>>, k |-> "false"],
           [w |-> <<78, 97, 78>>, k |-> "nan"],
           [w |-> <<73, 110, 102, 105, 110, 105, 116, 121>>, k |-> "inf"],
           [w |-> <<45, 73, 110, 102, 105, 110, 105, 116, 121>>, k |-> "-inf"]>>
Lesser(a, b) == IF a < b THEN a ELSE b
Bad(n) == [k |-> "bad", n |-> n, v |-> <<>>, e |-> 0]
Good(k, n, v) == [k |-> k, n |-> n, v |-> v, e |-> 0]
(* a word; characters are looked at up to and including the first wrong one *)
Word(t, p, w) ==
    LET m == Lesser(Len(w.w), Len(t) - p + 1)
        d == SelectInSeq([i \in 1..m |-> IF t[p + i - 1] = w.w[i] THEN 0 ELSE 1], LAMBDA x : x = 1)
    IN IF d # 0 THEN Bad(d) ELSE IF m < Len(w.w) THEN Bad(m) ELSE Good(w.k, m, <<>>)
(* strings; the only unicode escapes are those of single bytes *)
Hex(c) == CASE c >= 48 /\ c <= 57 -> c - 48 [] c >= 97 /\ c <= 102 -> c - 87 [] c >= 65 /\ c <= 70 -> c - 55 [] OTHER -> -1
Escapes == {<<98, 8>>, <<102, 12>>, <<110, 10>>, <<114, 13>>, <<116, 9>>, <<34, 34>>, <<92, 92>>, <<47, 47>>}
UnicodeOk(t, p) == <<At(t, p) = 48, At(t, p + 1) = 48, Hex(At(t, p + 2)) >= 0, Hex(At(t, p + 3)) >= 0>>
RECURSIVE Str(_, _, _, _)
Str(t, s, p, v) ==       \* s: position of the opening quote, p: next character
    IF p > Len(t) THEN Bad(Len(t) - s + 1)
    ELSE IF t[p] = 34 THEN Good("str", p - s + 1, v)
    ELSE IF t[p] # 92 THEN Str(t, s, p + 1, Append(v, t[p]))
    ELSE IF p = Len(t) THEN Bad(p - s + 1)
    ELSE IF t[p + 1] = 117 THEN
         LET f == SelectInSeq(UnicodeOk(t, p + 2), LAMBDA x : ~x)
         IN IF f # 0 THEN Bad(Lesser(p + 1 + f, Len(t)) - s + 1)
            ELSE Str(t, s, p + 6, Append(v, 16 * Hex(t[p + 4]) + Hex(t[p + 5])))
    ELSE IF \E x \in Escapes : x[1] = t[p + 1]
         THEN Str(t, s, p + 2, Append(v, (CHOOSE x \in Escapes : x[1] = t[p + 1])[2]))
    ELSE Bad(p + 1 - s + 1)
(* numbers: the longest prefix which looks like one; a point or an exponent makes it a double *)
Exponent(t, a, b) ==    \* of the characters a..b (sign and digits), cut at large ones
    LET neg == At(t, a) = 45
        ds == SubSeq(t, (IF neg \/ At(t, a) = 43 THEN a + 1 ELSE a), b)
        x == FoldLeft(LAMBDA s, c : Lesser(10 * s + (c - 48), 100000), 0, ds)
    IN IF neg THEN -x ELSE x
Num(t, p) ==
    LET neg == t[p] = 45
        i1 == IF neg THEN p + 1 ELSE p
        i2 == Digits(t, i1)
        point == At(t, i2) = 46
        f1 == IF point THEN i2 + 1 ELSE i2
        f2 == IF point THEN Digits(t, f1) ELSE i2
        ex == At(t, f2) \in {69, 101}
        x1 == IF ex THEN f2 + 1 ELSE f2
        x2 == IF ex THEN (IF At(t, x1) \in {43, 45} THEN x1 + 1 ELSE x1) ELSE f2
        x3 == IF ex THEN Digits(t, x2) ELSE f2
        digits == SubSeq(t, i1, i2 - 1) \o (IF point THEN SubSeq(t, f1, f2 - 1) ELSE <<>>)
        n == x3 - p
        N == OfDigits(digits)
    IN IF n = 0 \/ (neg /\ n = 1) THEN Bad(1)
       ELSE IF digits = <<>> \/ (ex /\ x3 = x2) THEN Bad(n)
       ELSE IF point \/ ex THEN [k |-> IF neg THEN "-dbl" ELSE "dbl", n |-> n, v |-> N,
                                 e |-> Exponent(t, x1, x3 - 1) - (IF point THEN f2 - f1 ELSE 0)]
       ELSE IF CmpBig(N, OfBits(IF neg THEN Int64Min ELSE Ones(64))) = 1 THEN [Bad(n) EXCEPT !.k = "over"]
       ELSE Good(IF neg THEN "int" ELSE "uint", n, N)
(* the scalar at position p, at most n characters of the text are its own *)
Scan(t, p) ==
    IF p > Len(t) THEN Bad(0)
    ELSE IF t[p] = 34 THEN Str(t, p, p + 1, <<>>)
    ELSE IF t[p] = 45 /\ At(t, p + 1) = 73 THEN Word(t, p, Words[6])
    ELSE IF \E i \in 1..5 : Words[i].w[1] = t[p] THEN Word(t, p, Words[CHOOSE i \in 1..5 : Words[i].w[1] = t[p]])
    ELSE Num(t, p)
(* the value a scan denotes is the one given: k is its type, b its bits or characters *)
Denotes(s, k, b) ==
    CASE s.k = "null" -> k = "null"
      [] s.k = "true" -> k = "bool" /\ b = <<1>>
      [] s.k = "false" -> k = "bool" /\ b = <<0>>
      [] s.k = "nan" -> k = "dbl" /\ IsNaNDouble(b)
      [] s.k = "inf" -> k = "dbl" /\ b = <<0>> \o Ones(11) \o Zeros(52)
      [] s.k = "-inf" -> k = "dbl" /\ b = <<1>> \o Ones(11) \o Zeros(52)
      [] s.k = "str" -> k = "str" /\ b = s.v
      [] s.k = "uint" -> k = "uint" /\ OfBits(b) = s.v
      [] s.k = "int" -> k = "int" /\ (IsZero(b) \/ b[1] = 1) /\ OfBits(Negate(b)) = s.v
      [] s.k \in {"dbl", "-dbl"} -> k = "dbl" /\ IsDouble(b, s.k = "-dbl", s.v, s.e)
      [] OTHER -> FALSE
-----------------------------------------------------------------------------
(* white space and positions: a carriage return, with a line feed or without, ends a line, but not at the very end *)
RECURSIVE Skip(_, _, _, _)
Skip(t, p, ln, col) ==
    IF p > Len(t) \/ (t[p] = 13 /\ p = Len(t)) THEN [p |-> Len(t) + 1, ln |-> ln, col |-> col]
    ELSE CASE t[p] \in {32, 9} -> Skip(t, p + 1, ln, col + 1)
           [] t[p] = 10 -> Skip(t, p + 1, ln + 1, 1)
           [] t[p] = 13 -> Skip(t, p + (IF t[p + 1] = 10 THEN 2 ELSE 1), ln + 1, 1)
           [] OTHER -> [p |-> p, ln |-> ln, col |-> col]
Punct == <<[c |-> 123, k |-> "BEGIN_OBJECT"], [c |-> 125, k |-> "END_OBJECT"], [c |-> 91, k |-> "BEGIN_ARRAY"],
           [c |-> 93, k |-> "END_ARRAY"], [c |-> 58, k |-> "KEY_SEPARATOR"], [c |-> 44, k |-> "ITEM_SEPARATOR"]>>
(* next token from the position st *)
Tok(t, st) ==
    LET s == Skip(t, st.p, st.ln, st.col)
        i == IF s.p > Len(t) THEN 0 ELSE SelectInSeq(Punct, LAMBDA x : x.c = t[s.p])
        v == Scan(t, s.p)
        nul == SelectInSeq(SubSeq(t, s.p, s.p + v.n - 1), LAMBDA x : x = 0) # 0     \* no value contains a zero byte
        to(k, n, val) == [tok |-> k, ln |-> s.ln, col |-> s.col, val |-> val,
                          st |-> [p |-> s.p + n, ln |-> s.ln, col |-> s.col + n]]
    IN IF s.p > Len(t) THEN to("END_OF_FILE", 0, Bad(0))
       ELSE IF i # 0 THEN to(Punct[i].k, 1, Bad(0))
       ELSE IF v.k \in {"bad", "over"} \/ nul THEN to("ERROR", 0, v)
       ELSE to("VALUE", v.n, v)
Start == [p |-> 1, ln |-> 1, col |-> 1]
-----------------------------------------------------------------------------
(* The grammar: stack of what is open, state what may come next. *)
(* states: E element, O after '{', M member needed, C ':' needed, V after a member, A after '[', I after an element, D done *)
After(stack) == IF stack = <<>> THEN "D" ELSE IF stack[Len(stack)] = "{" THEN "V" ELSE "I"
Pop(stack) == SubSeq(stack, 1, Len(stack) - 1)
To(s, stack, ev) == [ok |-> TRUE, s |-> s, stack |-> stack, ev |-> ev]
Err == [ok |-> FALSE, s |-> "X", stack |-> <<>>, ev |-> "none"]
Element(tok, stack) ==
    CASE tok = "BEGIN_OBJECT" -> To("O", Append(stack, "{"), "beginObject")
      [] tok = "BEGIN_ARRAY" -> To("A", Append(stack, "["), "beginArray")
      [] tok = "VALUE" -> To(After(stack), stack, "value")
      [] OTHER -> Err
Parse(s, stack, tok, isStr) ==
    CASE s = "E" -> Element(tok, stack)
      [] s = "O" /\ tok = "END_OBJECT" -> To(After(Pop(stack)), Pop(stack), "endObject")
      [] s \in {"O", "M"} /\ tok = "VALUE" /\ isStr -> To("C", stack, "key")
      [] s = "C" /\ tok = "KEY_SEPARATOR" -> To("E", stack, "none")
      [] s = "V" /\ tok = "ITEM_SEPARATOR" -> To("M", stack, "none")
      [] s = "V" /\ tok = "END_OBJECT" -> To(After(Pop(stack)), Pop(stack), "endObject")
      [] s = "A" /\ tok = "END_ARRAY" -> To(After(Pop(stack)), Pop(stack), "endArray")
      [] s = "A" -> Element(tok, stack)
      [] s = "I" /\ tok = "ITEM_SEPARATOR" -> To("E", stack, "none")
      [] s = "I" /\ tok = "END_ARRAY" -> To(After(Pop(stack)), Pop(stack), "endArray")
      [] OTHER -> Err
-----------------------------------------------------------------------------
(* encoding of strings: the short escapes, \u00xx for other control characters, everything else as it is *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
EncChar(c) == IF c \in {34, 92} THEN <<92, c>>
              ELSE IF \E x \in Escapes : x[2] = c /\ c < 32 THEN <<92, (CHOOSE x \in Escapes : x[2] = c)[1]>>
              ELSE IF c < 32 THEN <<92, 117, 48, 48, HexDigit(c \div 16), HexDigit(c % 16)>>
              ELSE <<c>>
EncStr(v) == <<34>> \o FlattenSeq([i \in 1..Len(v) |-> EncChar(v[i])]) \o <<34>>
=============================================================================
