------------------------------- MODULE BitBuf -------------------------------
(* Bit buffers: a value is a sequence of bits; the storage may have more.    *)
(* Slots hold buffers; moved-from buffers are empty.                         *)
EXTENDS ZBits
CONSTANT Slots
VARIABLES val, hashes      \* slot -> bits;  set of <<bits, hash>> observed
vars == <<val, hashes>>
Init == val = [s \in Slots |-> <<>>] /\ hashes = {}
Construct(s, bs) == val' = [val EXCEPT ![s] = bs] /\ UNCHANGED hashes
(* storage: number of bytes offered; refused if it is too small *)
Fits(n, bytes) == n <= 8 * bytes
CopyTo(s, t) == val' = [val EXCEPT ![t] = val[s]] /\ UNCHANGED hashes
MoveTo(s, t) == val' = (IF s = t THEN val ELSE [val EXCEPT ![t] = val[s], ![s] = <<>>]) /\ UNCHANGED hashes
SetBit(s, i, b) == i \in 1..Len(val[s]) /\ val' = [val EXCEPT ![s][i] = b] /\ UNCHANGED hashes
Rejected == UNCHANGED vars
(* strict total order: the first differing bit decides, a proper prefix is smaller *)
LtB(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == FirstDiff(SubSeq(a, 1, n), SubSeq(b, 1, n))
    IN IF d = 0 THEN Len(a) < Len(b) ELSE a[d] < b[d]
(* equal buffers always hash equally *)
HashStep(s, h) == /\ \A p \in hashes : p[1] = val[s] => p[2] = h
                  /\ hashes' = hashes \cup {<<val[s], h>>} /\ UNCHANGED val
=============================================================================
