------------------------------- MODULE Arrays -------------------------------
(* Array wire format.  An array is a sequence of rows, a row has one entry   *)
(* per column (arrays of built-in types have one column), an entry is <<v>>  *)
(* or, in optional columns, <<>> for an absent value.                        *)
(* Column: k kind, n width in bits, m width period (row i has n+(i-1)%m),    *)
(* w storage width, sg 1 when signed, opt TRUE when optional, dom: sequence  *)
(* of allowed raw values of an enumeration, lim: highest bits of a bitmask.  *)
EXTENDS ZBits

IntCols == {"int", "dyn", "enum", "mask", "bool"} \cup VarKinds
BlobCols == {"str", "bytes", "bb"}
PackableCol(c) == c.k \in IntCols
Width(c, i) == c.n + ((i - 1) % c.m)
Plain(c, i, v) ==
    CASE c.k \in {"int", "dyn", "enum", "mask", "bool"} -> Last0(v, Width(c, i))
      [] c.k \in VarKinds -> EncVar(c.k, v)
      [] c.k = "f16" -> SingleToHalf(v)
      [] c.k \in {"f32", "f64"} -> v
      [] c.k \in {"str", "bytes"} -> EncVar("sz", NatBits(Len(v) \div 8, 64)) \o v
      [] c.k = "bb" -> EncVar("sz", NatBits(Len(v), 64)) \o v
Valid(c, i, v) ==
    CASE c.k \in {"int", "dyn"} -> IF c.sg = 1 THEN FitsS(v, Width(c, i)) ELSE FitsU(v, Width(c, i))
      [] c.k \in VarKinds -> VarInRange(c.k, v)
      [] OTHER -> TRUE

AlignUp(p) == IF p % 8 = 0 THEN p ELSE p + (8 - (p % 8))
AutoLay(lay) == lay \in {"auto", "alignedauto"}
AlignedLay(lay) == lay \in {"aligned", "alignedauto"}

-----------------------------------------------------------------------------
(* delta coding of one column: rows with a value, in order *)
MaxDeltaBits == 62
DescriptorBits == 6
Present(rows, c) == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : Len(rows[i][c]) = 1)
DeltaLen(sg, a, b) == LET gt == IF sg = 1 THEN LtS(b, a) ELSE LtU(b, a) IN SigLen(IF gt THEN Sub(a, b) ELSE Sub(b, a))
MaxSeq(s) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, s)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Descriptor(cols, rows, c) ==
    LET p == Present(rows, c)
        v(j) == rows[p[j]][c][1]
        lens == [j \in 1..(Len(p) - 1) |-> DeltaLen(cols[c].sg, v(j), v(j + 1))]
        mbn == MaxSeq(lens)
        plain == [j \in 1..Len(p) |-> Len(Plain(cols[c], p[j], v(j)))]
        dl == IF mbn = 0 THEN 0 ELSE mbn + 1
        smaller == 1 + DescriptorBits + plain[1] + (Len(p) - 1) * dl < 1 + SumSeq(plain)
    IN [mbn |-> mbn, packed |-> Len(p) >= 2 /\ mbn <= MaxDeltaBits /\ smaller]
(* bits of column c in row i of a packed array *)
PackedBits(cols, rows, ds, c, i) ==
    LET p == Present(rows, c)
        j == CHOOSE x \in 1..Len(p) : p[x] = i
        v == rows[i][c][1]
        d == ds[c]
    IN IF j = 1 THEN (IF d.packed THEN <<1>> \o NatBits(d.mbn, DescriptorBits) ELSE <<0>>) \o Plain(cols[c], i, v)
       ELSE IF ~d.packed THEN Plain(cols[c], i, v)
       ELSE IF d.mbn = 0 THEN <<>>
       ELSE Last0(Sub(v, rows[p[j - 1]][c][1]), d.mbn + 1)
NoDescriptor == [mbn |-> 0, packed |-> FALSE]
Descriptors(cols, rows, packed) ==
    [c \in 1..Len(cols) |-> IF packed /\ PackableCol(cols[c]) THEN Descriptor(cols, rows, c) ELSE NoDescriptor]
RowBits(cols, rows, ds, packed, i) ==
    FlattenSeq([c \in 1..Len(cols) |->
        LET en == rows[i][c] IN
        (IF cols[c].opt THEN <<Len(en)>> ELSE <<>>)
        \o (IF en = <<>> THEN <<>>
            ELSE IF packed /\ PackableCol(cols[c]) THEN PackedBits(cols, rows, ds, c, i)
            ELSE Plain(cols[c], i, en[1]))])
(* the encoding at bit position start: bits and byte offsets of the elements *)
Encode(start, lay, packed, cols, rows) ==
    LET ds == Descriptors(cols, rows, packed)
        pre == IF AutoLay(lay) THEN EncVar("sz", NatBits(Len(rows), 64)) ELSE <<>>
        step(acc, i) ==
            LET pos == start + Len(acc.bits)
                gap == IF AlignedLay(lay) THEN AlignUp(pos) - pos ELSE 0
            IN [bits |-> acc.bits \o Zeros(gap) \o RowBits(cols, rows, ds, packed, i),
                offs |-> Append(acc.offs, (pos + gap) \div 8)]
    IN FoldLeft(step, [bits |-> pre, offs |-> <<>>], [i \in 1..Len(rows) |-> i])

-----------------------------------------------------------------------------
(* decoding bits of one plain value at 0-based position pos up to lim *)
Fail(st) == [st |-> st, len |-> 0, v |-> <<>>]
DecBlob(bits, pos, lim, unit) ==
    LET d == DecVar("sz", bits, pos, lim)
    IN IF d.st # "ok" THEN d
       ELSE LET room == lim - pos - d.len
            IN IF SigLen(d.v) > 20 \/ BitsNat(d.v) > room \div unit THEN Fail("eof")
               ELSE LET n == BitsNat(d.v) * unit IN [st |-> "ok", len |-> d.len + n,
                            v |-> SubSeq(bits, pos + d.len + 1, pos + d.len + n)]
QuietNaN == Zeros(1) \o Ones(9) \o Zeros(22)      \* any NaN is as good as another one
DecPlain(c, i, bits, pos, lim) ==
    LET fix(n, f(_)) == IF pos + n > lim THEN Fail("eof") ELSE [st |-> "ok", len |-> n, v |-> f(SubSeq(bits, pos + 1, pos + n))] IN
    CASE c.k \in {"int", "dyn", "enum", "mask", "bool"} ->
            fix(Width(c, i), LAMBDA b : IF c.sg = 1 THEN SignExt(b, 64) ELSE ZeroExt(b, 64))
      [] c.k \in VarKinds -> DecVar(c.k, bits, pos, lim)
      [] c.k = "f16" -> fix(16, LAMBDA b : IF IsNaNHalf(b) THEN QuietNaN ELSE HalfToSingle(b))
      [] c.k = "f32" -> fix(32, LAMBDA b : b)
      [] c.k = "f64" -> fix(64, LAMBDA b : b)
      [] c.k \in {"str", "bytes"} -> DecBlob(bits, pos, lim, 8)
      [] c.k = "bb" -> DecBlob(bits, pos, lim, 1)
(* a running sum lands in the storage type of its column *)
Wrap(c, v) == IF c.k = "bool" THEN NatBits(IF IsZero(v) THEN 0 ELSE 1, 64)
              ELSE IF c.sg = 1 THEN SignExt(Last0(v, c.w), 64) ELSE ZeroExt(Last0(v, c.w), 64)
(* raw values which are no item of the enumeration or use undefined bits of the bitmask are refused *)
Known(c, v) == CASE c.k = "enum" -> \E j \in 1..Len(c.dom) : c.dom[j] = v
                 [] c.k = "mask" -> SigLen(v) <= c.lim
                 [] OTHER -> TRUE
(* decoder state: pos, st, rows, per column context [on, packed, mbn, prev] *)
DecEntry(cols, packed, bits, lim, acc, c, i) ==
    IF acc.st # "ok" THEN acc
    ELSE LET col == cols[c]
             hasp == col.opt
             p0 == acc.pos
         IN IF hasp /\ p0 + 1 > lim THEN [acc EXCEPT !.st = "eof"]
            ELSE IF hasp /\ bits[p0 + 1] = 0 THEN [acc EXCEPT !.pos = p0 + 1, !.row = Append(@, <<>>)]
            ELSE LET p1 == p0 + (IF hasp THEN 1 ELSE 0)
                     cx == acc.cx[c]
                     usecx == packed /\ PackableCol(col)
                     dpk == usecx /\ ~cx.on /\ p1 + 1 <= lim /\ bits[p1 + 1] = 1
                     dlen == IF usecx /\ ~cx.on THEN (IF dpk THEN 7 ELSE 1) ELSE 0
                     p2 == p1 + dlen
                     ncx == IF usecx /\ ~cx.on
                            THEN [on |-> TRUE, packed |-> dpk, prev |-> Zeros(64),
                                  mbn |-> IF dpk /\ p2 <= lim THEN BitsNat(SubSeq(bits, p1 + 2, p1 + 7)) ELSE 0]
                            ELSE cx
                     delta == usecx /\ cx.on /\ cx.packed
                     n == IF ncx.mbn = 0 THEN 0 ELSE ncx.mbn + 1
                     d == IF p2 > lim THEN Fail("eof")
                          ELSE IF ~delta THEN DecPlain(col, i, bits, p2, lim)
                          ELSE IF p2 + n > lim THEN Fail("eof")
                          ELSE [st |-> "ok", len |-> n,
                                v |-> IF n = 0 THEN cx.prev
                                      ELSE Wrap(col, Add(cx.prev, SignExt(SubSeq(bits, p2 + 1, p2 + n), 64)))]
                 IN IF d.st # "ok" THEN [acc EXCEPT !.st = d.st]
                    ELSE IF ~Known(col, d.v) THEN [acc EXCEPT !.st = "item"]
                    ELSE [acc EXCEPT !.pos = p2 + d.len, !.row = Append(@, <<d.v>>),
                                     !.cx[c] = [ncx EXCEPT !.prev = IF usecx THEN d.v ELSE @]]
DecRow(cols, packed, lay, bits, lim, acc, i) ==
    IF acc.st # "ok" THEN acc
    ELSE LET p == IF AlignedLay(lay) THEN AlignUp(acc.pos) ELSE acc.pos
         IN IF p > lim THEN [acc EXCEPT !.st = "eof"]
            ELSE LET r == FoldLeft(LAMBDA a, c : DecEntry(cols, packed, bits, lim, a, c, i),
                                   [acc EXCEPT !.pos = p, !.row = <<>>], [c \in 1..Len(cols) |-> c])
                 IN IF r.st = "ok" THEN [r EXCEPT !.rows = Append(@, r.row)] ELSE r
(* number of rows declared: [st, n, len]; n = -1 stands for more than 2^20 *)
DecLength(lay, cols, bits, start, lim, given) ==
    IF AutoLay(lay)
    THEN LET d == DecVar("sz", bits, start, lim)
         IN IF d.st # "ok" THEN [st |-> d.st, n |-> 0, len |-> 0]
            ELSE [st |-> "ok", n |-> IF SigLen(d.v) > 20 THEN -1 ELSE BitsNat(d.v), len |-> d.len]
    ELSE [st |-> "ok", len |-> 0, n |-> IF lay = "implicit" THEN (lim - start) \div cols[1].n ELSE given]
FreshCx == [on |-> FALSE, packed |-> FALSE, mbn |-> 0, prev |-> Zeros(64)]
(* More rows than the decoder model follows: the shortage shows after at most this many rows, unless
   elements take no bits at all. *)
Decode(start, lay, packed, cols, bits, lim, given) ==
    LET dl == DecLength(lay, cols, bits, start, lim, given)
        most == lim - start + 2
        n == IF dl.n = -1 \/ dl.n > most THEN most ELSE dl.n
        init == [st |-> "ok", pos |-> start + dl.len, rows |-> <<>>, row |-> <<>>, cx |-> [c \in 1..Len(cols) |-> FreshCx]]
        r == FoldLeft(LAMBDA a, i : DecRow(cols, packed, lay, bits, lim, a, i), init, [i \in 1..n |-> i])
    IN IF dl.st # "ok" THEN [init EXCEPT !.st = dl.st]
       ELSE IF r.st = "ok" /\ n # dl.n THEN [r EXCEPT !.st = "endless"] ELSE r
=============================================================================
