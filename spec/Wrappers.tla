------------------------------ MODULE Wrappers ------------------------------
(* Numeric wrappers: a value of w bits (two's complement if signed) which is  *)
(* changed by the built-in operations of its value type.                      *)
EXTENDS Ranges
One(w) == NatBits(1, w)
(* product and quotient modulo 2^w *)
Mul(a, b) == FoldLeft(LAMBDA acc, x : LET d == Tail(acc) \o <<0>> IN IF x = 1 THEN Add(d, a) ELSE d, Zeros(Len(a)), b)
LeU(a, b) == ~LtU(b, a)
(* one more bit for the remainder, so that it can be shifted *)
DivModU(a, b) ==
    LET d == <<0>> \o b
        r == FoldLeft(LAMBDA acc, x :
                 LET m == Tail(acc.m) \o <<x>> IN
                 IF LeU(d, m) THEN [m |-> Sub(m, d), q |-> Append(acc.q, 1)] ELSE [m |-> m, q |-> Append(acc.q, 0)],
                 [m |-> Zeros(Len(a) + 1), q |-> <<>>], a)
    IN [q |-> r.q, m |-> Tail(r.m)]
Abs(a, sg) == IF sg /\ a[1] = 1 THEN Negate(a) ELSE a
(* division truncates towards zero, the remainder has the sign of the dividend *)
Div(a, b, sg) == LET q == DivModU(Abs(a, sg), Abs(b, sg)).q IN IF sg /\ a[1] # b[1] THEN Negate(q) ELSE q
Mod(a, b, sg) == LET m == DivModU(Abs(a, sg), Abs(b, sg)).m IN IF sg /\ a[1] = 1 THEN Negate(m) ELSE m
Shl(a, n) == SubSeq(a, n + 1, Len(a)) \o Zeros(n)
Shr(a, n, sg) == [i \in 1..Len(a) |-> IF i > n THEN a[i - n] ELSE IF sg THEN a[1] ELSE 0]
Bitwise(f(_, _), a, b) == [i \in 1..Len(a) |-> f(a[i], b[i])]
And(x, y) == x * y
Or(x, y) == IF x + y > 0 THEN 1 ELSE 0
Xor(x, y) == (x + y) % 2
(* the value after an operation; shifts are by 0..w-1 *)
Apply(op, a, b, sg) ==
    CASE op \in {"++", "post++"} -> Add(a, One(Len(a)))
      [] op \in {"--", "post--"} -> Sub(a, One(Len(a)))
      [] op \in {"+="} -> Add(a, b)
      [] op \in {"-="} -> Sub(a, b)
      [] op = "*=" -> Mul(a, b)
      [] op = "/=" -> Div(a, b, sg)
      [] op = "%=" -> Mod(a, b, sg)
      [] op = "&=" -> Bitwise(And, a, b)
      [] op = "|=" -> Bitwise(Or, a, b)
      [] op = "^=" -> Bitwise(Xor, a, b)
      [] op = "<<=" -> Shl(a, BitsNat(b))
      [] op = ">>=" -> Shr(a, BitsNat(b), sg)
      [] op = "=" -> b
Returned(op, a, r) == IF op \in {"post++", "post--"} THEN a ELSE r
Order(a, b, sg) == IF a = b THEN 0 ELSE IF (IF sg THEN LtS(a, b) ELSE LtU(a, b)) THEN -1 ELSE 1
Relations(o) == <<o = 0, o # 0, o < 0, o <= 0, o > 0, o >= 0>>
(* the history of one wrapper *)
VARIABLES cur, sgn
Start(v, sg) == cur' = v /\ sgn' = sg
Do(op, b) == cur' = Apply(op, cur, b, sgn) /\ UNCHANGED sgn
(* floating point limits: smallest normal and largest finite number; half numbers are kept in single precision *)
FloatMin(k) == IF k = "f16" THEN HalfToSingle(Zeros(5) \o <<1>> \o Zeros(10)) ELSE IF k = "f32" THEN Zeros(8) \o <<1>> \o Zeros(23) ELSE Zeros(11) \o <<1>> \o Zeros(52)
FloatMax(k) == IF k = "f16" THEN HalfToSingle(<<0>> \o Ones(4) \o <<0>> \o Ones(10)) ELSE IF k = "f32" THEN <<0>> \o Ones(7) \o <<0>> \o Ones(23) ELSE <<0>> \o Ones(10) \o <<0>> \o Ones(52)
(* dynamic bit fields with their number of bits: by bits first, then by value *)
FieldOrder(n1, a, n2, b, sg) == IF n1 # n2 THEN (IF n1 < n2 THEN -1 ELSE 1) ELSE Order(a, b, sg)
=============================================================================
