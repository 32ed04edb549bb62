------------------------------- MODULE Ranges -------------------------------
(* Value ranges, computed sizes and encodings of the numeric types.          *)
(* kinds: "fs"/"fu" fixed n-bit integers, "ds"/"du" integers with n given at   *)
(* run time (0 < n <= storage width), and the variable-length kinds.         *)
EXTENDS ZBits
InRange(k, n, v) ==
    CASE k \in {"fs", "ds"} -> FitsS(v, n)
      [] k \in {"fu", "du"} -> FitsU(v, n)
      [] OTHER -> VarInRange(k, v)
Enc(k, n, v) == IF k \in VarKinds THEN EncVar(k, v) ELSE Last0(v, n)
MinOf(k, n) ==
    CASE k \in {"fs", "ds"} -> [i \in 1..64 |-> IF i <= 64 - n + 1 THEN 1 ELSE 0]
      [] k \in {"v16", "v32", "v64"} -> Negate(ZeroExt(Ones(VarCap(k, VarMax(k))), 64))
      [] k = "v" -> Int64Min
      [] OTHER -> Zeros(64)
MaxOf(k, n) ==
    CASE k \in {"fs", "ds"} -> [i \in 1..64 |-> IF i <= 64 - n + 1 THEN 0 ELSE 1]
      [] k \in {"fu", "du"} -> [i \in 1..64 |-> IF i <= 64 - n THEN 0 ELSE 1]
      [] k = "sz" -> [i \in 1..64 |-> IF i <= 33 THEN 0 ELSE 1]
      [] k = "v" -> ZeroExt(Ones(63), 64)
      [] OTHER -> ZeroExt(Ones(VarCap(k, VarMax(k))), 64)
=============================================================================
