----------------------------- MODULE MC_Decimal -----------------------------
(* What "nearest" means: every decimal has a nearest double and only ties     *)
(* could have two; checked around doubles of all sorts of exponents.          *)
EXTENDS JsonText
VARIABLE d          \* a double, 64 bits, and a decimal n * 10^e
Exps == {0, 1, 2, 900, 1019, 1022, 1023, 1024, 1075, 1076, 1077, 1200, 2045, 2046}
Fracs == {Zeros(52), Ones(52), Zeros(51) \o <<1>>, <<1>> \o Zeros(51), Ones(51) \o <<0>>}
Dbl(x, f) == <<0>> \o NatBits(x, 11) \o f
Up(b) == Add(b, NatBits(1, 64))
Down(b) == Sub(b, NatBits(1, 64))
Init == \E x \in Exps, f \in Fracs : d = Dbl(x, f)
Next == FALSE /\ d' = d
Spec == Init /\ [][Next]_d
(* decimals near d: its integral and fractional digits, exactly for small exponents *)
Small == {<<n, e>> : n \in {<<1>>, <<5>>, <<7, 1>>}, e \in {-324, -20, -1, 22, 300}}
(* at most two neighbours accept a decimal, and then both only if it is a tie *)
Unique == \A s \in Small :
    LET acc == {b \in {d, Up(d), Down(d)} : Len(b) = 64 /\ b[1] = 0 /\ ~IsNaNDouble(b) /\ Nearest(b, s[1], s[2])}
    IN Cardinality(acc) <= 1
(* a double with an integral value is nearest to its own digits; one ulp beside is not *)
Exact == LET x == DExp(d) IN
    (x \in 0..40) => LET n == Trim(Pow2(OfBits(DSig(d)), x)) IN Nearest(d, n, 0) /\ ~Nearest(Up(d), n, 0) /\ ~Nearest(Down(d), n, 0)
(* halfway to the next one, the even of the two is taken *)
Tie == LET x == DExp(d) - 1 IN
    (x \in 0..40) => LET n == Trim(Pow2(OfBits(DSig(d) \o <<1>>), x))
                     IN Nearest(d, n, 0) = (d[64] = 0) /\ Nearest(Up(d), n, 0) = (d[64] = 1)
=============================================================================
