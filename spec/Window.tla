------------------------------- MODULE Window -------------------------------
(* Spans as windows [lo, hi) over one underlying sequence, iterators as      *)
(* positions in a view of such a window.  Indices are 0-based as in C++.     *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Slots
VARIABLES base, win, view, its
vars == <<base, win, view, its>>
Size(w) == w.hi - w.lo
Elems(w) == SubSeq(base, w.lo + 1, w.hi)
Whole == [lo |-> 0, hi |-> Len(base)]
Init == base = <<>> /\ win = [s \in Slots |-> [lo |-> 0, hi |-> 0]] /\ view = [lo |-> 0, hi |-> 0] /\ its = [s \in Slots |-> 0]
NewBase(b) == base' = b /\ win' = [s \in Slots |-> [lo |-> 0, hi |-> Len(b)]] /\ view' = [lo |-> 0, hi |-> Len(b)] /\ its' = [s \in Slots |-> 0]
FirstOf(w, n) == [lo |-> w.lo, hi |-> w.lo + n]
LastOf(w, n) == [lo |-> w.hi - n, hi |-> w.hi]
SubOf(w, o, n) == [lo |-> w.lo + o, hi |-> IF n = -1 THEN w.hi ELSE w.lo + o + n]
Derive(s, d, k, o, n) ==
    /\ CASE k = "copy" -> TRUE
         [] k = "first" -> n <= Size(win[s])
         [] k = "last" -> n <= Size(win[s])
         [] k = "sub" -> o <= Size(win[s]) /\ (n = -1 \/ o + n <= Size(win[s]))
    /\ win' = [win EXCEPT ![d] = CASE k = "copy" -> win[s] [] k = "first" -> FirstOf(win[s], n)
                                   [] k = "last" -> LastOf(win[s], n) [] k = "sub" -> SubOf(win[s], o, n)]
    /\ UNCHANGED <<base, view, its>>
Assign(s, i, v) == /\ i < Size(win[s]) /\ base' = [base EXCEPT ![win[s].lo + i + 1] = v] /\ UNCHANGED <<win, view, its>>
SetView(s) == view' = win[s] /\ its' = [x \in Slots |-> 0] /\ UNCHANGED <<base, win>>
Move(s, d, by) == /\ its[s] + by >= 0 /\ its[s] + by <= Size(view)
                  /\ its' = [its EXCEPT ![d] = its[s] + by] /\ UNCHANGED <<base, win, view>>
Inside == \A s \in Slots : 0 <= win[s].lo /\ win[s].lo <= win[s].hi /\ win[s].hi <= Len(base)
=============================================================================
