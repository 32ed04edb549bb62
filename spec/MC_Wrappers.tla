---------------------------- MODULE MC_Wrappers -----------------------------
(* The operations on bits are those on integers, for every pair of W bits. *)
EXTENDS Wrappers
W == 5
VARIABLE arg
Vals == {NatBits(v, W) : v \in 0..(2^W - 1)}
Ops == {"++", "--", "post++", "post--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "="}
IntOf(b, sg) == BitsNat(b) - (IF sg /\ b[1] = 1 THEN 2^W ELSE 0)
Wrap(x) == NatBits(x % (2^W), W)
Trunc(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
MCInit == cur \in Vals /\ sgn \in BOOLEAN /\ arg = <<"none", cur, cur>>
Legal(op, b) == (op \in {"/=", "%="} => ~IsZero(b)) /\ (op \in {"<<=", ">>="} => BitsNat(b) < W)
MCNext == arg[1] = "none" /\ \E op \in Ops, b \in Vals : Legal(op, b) /\ Do(op, b) /\ arg' = <<op, cur, b>>
Right ==
    LET op == arg[1]  a == IntOf(arg[2], sgn)  b == IntOf(arg[3], sgn)  n == BitsNat(arg[3]) IN
    CASE op = "+=" -> cur = Wrap(a + b)
      [] op = "-=" -> cur = Wrap(a - b)
      [] op = "*=" -> cur = Wrap(a * b)
      [] op = "/=" -> cur = Wrap(Trunc(a, b))
      [] op = "%=" -> cur = Wrap(a - b * Trunc(a, b))
      [] op = "<<=" -> cur = Wrap(a * 2^n)
      [] op = ">>=" -> cur = Wrap(a \div 2^n)
      [] op \in {"++", "post++"} -> cur = Wrap(a + 1)
      [] op \in {"--", "post--"} -> cur = Wrap(a - 1)
      [] op \in {"&=", "|=", "^="} -> TRUE
      [] OTHER -> cur = arg[3]
Ordered == \A b \in Vals : Order(cur, b, sgn) = (LET x == IntOf(cur, sgn) y == IntOf(b, sgn) IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
MCSpec == MCInit /\ [][MCNext]_<<cur, sgn, arg>>
=============================================================================
