----------------------------- MODULE MC_Ranges ------------------------------
(* The bounds are tight for every kind and width, and decoding inverts encoding at and around them. *)
EXTENDS Ranges
VARIABLE st
One == NatBits(1, 64)
MCInit == st \in {<<k, n>> : k \in {"fs", "fu"}, n \in 1..64} \cup {<<k, 0>> : k \in VarKinds}
MCNext == FALSE /\ UNCHANGED st
K == st[1]
N == st[2]
Tight ==
    /\ InRange(K, N, MinOf(K, N)) /\ InRange(K, N, MaxOf(K, N))
    /\ LET up == Add(MaxOf(K, N), One) dn == Sub(MinOf(K, N), One) IN
       /\ InRange(K, N, up) => up = MinOf(K, N)       \* wraps round only for the full 64 bits
       /\ InRange(K, N, dn) => dn = MaxOf(K, N)
EncDec ==
    \A v \in {MinOf(K, N), MaxOf(K, N), Zeros(64), One, Sub(MaxOf(K, N), One), Add(MinOf(K, N), One)} :
        InRange(K, N, v) =>
            LET c == Enc(K, N, v) IN
            IF K \in VarKinds THEN DecVar(K, c, 0, Len(c)) = [st |-> "ok", len |-> Len(c), v |-> v]
            ELSE (IF K = "fs" THEN SignExt(c, 64) ELSE ZeroExt(c, 64)) = v
MCSpec == MCInit /\ [][MCNext]_st
=============================================================================
