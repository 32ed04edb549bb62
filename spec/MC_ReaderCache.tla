--------------------------- MODULE MC_ReaderCache ---------------------------
(* Design of the cached reader: W-bit word cache refilled from B-bit bytes, as a refinement of the plain reader.
   The buffer content is the identity (bit i is the number i), so that a wrong bit is recognised. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, B, MaxCap
VARIABLES cap, pos, cache, apos, out, aout
vars == <<cap, pos, cache, apos, out, aout>>
Bits(a, b) == [i \in 1..(b - a) |-> a + i - 1]
Min(a, b) == IF a < b THEN a ELSE b
Init == cap \in 0..MaxCap /\ pos = 0 /\ cache = <<>> /\ apos = 0 /\ out = <<>> /\ aout = <<>>
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
(* concrete step: take what is cached, refill with a whole word or with what is left *)
Read(n) ==
    IF Len(cache) >= n
    THEN /\ out' = SubSeq(cache, 1, n) /\ cache' = SubSeq(cache, n + 1, Len(cache)) /\ pos' = pos + n
    ELSE IF pos + n > cap
    THEN /\ out' = <<-1>> /\ UNCHANGED <<cache, pos>>
    ELSE LET p2 == pos + Len(cache)
             r == n - Len(cache)
             fill == IF p2 + W <= cap THEN Bits(p2, p2 + W) ELSE Bits(p2, cap)
         IN /\ out' = cache \o SubSeq(fill, 1, r)
            /\ cache' = SubSeq(fill, r + 1, Len(fill))
            /\ pos' = p2 + r
Seek(p) ==
    IF p > cap THEN out' = <<-1>> /\ UNCHANGED <<cache, pos>>
    ELSE LET b0 == (p \div B) * B
             fill == IF b0 + W <= cap THEN Bits(b0, b0 + W) ELSE Bits(b0, cap)
         IN /\ pos' = p
            /\ cache' = IF p = b0 THEN <<>> ELSE SubSeq(fill, p - b0 + 1, Len(fill))
            /\ out' = <<>>
(* abstract steps *)
ARead(n) == IF apos + n <= cap THEN aout' = Bits(apos, apos + n) /\ apos' = apos + n
            ELSE aout' = <<-1>> /\ apos' = apos
ASeek(p) == IF p <= cap THEN aout' = <<>> /\ apos' = p ELSE aout' = <<-1>> /\ apos' = apos
DoRead == \E n \in 1..W : Read(n) /\ ARead(n) /\ UNCHANGED cap
DoSeek == \E p \in 0..(MaxCap + 1) : Seek(p) /\ ASeek(p) /\ UNCHANGED cap
Next == DoRead \/ DoSeek
Spec == Init /\ [][Next]_vars
Refines == pos = apos /\ out = aout
CacheSound == cache = Bits(pos, pos + Len(cache))
RefillAligned == Len(cache) = 0 => TRUE
(* a refill never starts in the middle of a byte: the cache always ends at a byte boundary or at the end *)
CacheEnd == Len(cache) > 0 => ((pos + Len(cache)) % B = 0 \/ pos + Len(cache) = cap)
EmptyAligned == Len(cache) = 0 => (pos % B = 0 \/ pos = cap)
=============================================================================
