---------------------------- MODULE MC_BitStream ----------------------------
(* Bounded exhaustive model: any sequence of up to MaxOps writes (of all kinds of values, with alignment) and then
   reading it back in the same shape returns the written values at the same positions. *)
EXTENDS BitStream, TLC
CONSTANTS MaxOps, MaxCap
VARIABLES hist,   \* written ops with their start positions
          next,   \* index of the next op to be read back (0: writing phase)
          good
mvars == <<vars, hist, next, good>>
U(n, x) == [k |-> "U32", n |-> n, v |-> NatBits(x, 64)]
Ops == {U(1, 1), U(3, 5), U(7, 64), U(9, 257),
        [k |-> "S64", n |-> 5, v |-> Negate(NatBits(16, 64))],
        [k |-> "u16", n |-> 0, v |-> NatBits(127, 64)], [k |-> "u16", n |-> 0, v |-> NatBits(128, 64)],
        [k |-> "v16", n |-> 0, v |-> Negate(NatBits(64, 64))], [k |-> "v", n |-> 0, v |-> Int64Min],
        [k |-> "bb", n |-> 0, v |-> <<1, 0, 1>>], [k |-> "str", n |-> 0, v |-> ByteBits[65]],
        [k |-> "bool", n |-> 0, v |-> <<1>>],
        [k |-> "A", n |-> 4, v |-> <<>>]}
MCInit == /\ \E c \in {MaxCap - 7, MaxCap} : \E fill \in {0, 1} :
              wcap = c /\ wbuf = [i \in 1..MaxCap |-> fill]
          /\ whas = TRUE /\ wpos = 0 /\ rbuf = <<>> /\ rcap = 0 /\ rpos = 0
          /\ hist = <<>> /\ next = 0 /\ good = TRUE
MCWrite == /\ next = 0 /\ Len(hist) < MaxOps
           /\ \E o \in Ops : /\ IF o.k = "A" THEN WAlign(o.n) ELSE Write(o)
                             /\ hist' = Append(hist, [op |-> o, at |-> wpos])
           /\ UNCHANGED <<next, good>>
MCReject == /\ next = 0 /\ Len(hist) < MaxOps
            /\ \E o \in Ops : o.k \notin {"A"} /\ WriteRejected(o)
            /\ UNCHANGED <<hist, next, good>>
MCTurn == /\ next = 0 /\ hist # <<>> /\ NewReader(wbuf, wcap) /\ next' = 1 /\ UNCHANGED <<hist, good>>
MCRead == /\ next >= 1 /\ next <= Len(hist)
          /\ LET o == hist[next].op IN
             IF o.k = "A" THEN RAlign(o.n) /\ good' = good
             ELSE LET d == Dec(o.k, o.n)
                      expect == IF o.k \in BlobKinds \cup {"bool"} THEN o.v ELSE o.v
                  IN /\ d.st = "ok"
                     /\ Read(o.k, o.n, d.v)
                     /\ good' = (good /\ d.v = expect /\ rpos = hist[next].at)
          /\ next' = next + 1 /\ UNCHANGED hist
MCNext == MCWrite \/ MCReject \/ MCTurn \/ MCRead
MCSpec == MCInit /\ [][MCNext]_mvars
Exact == good
Positions == wpos <= wcap /\ rpos <= rcap
(* reading back is always possible and ends where writing ended *)
Finished == (next > Len(hist) /\ next # 0) => rpos = wpos
NeverStuck == (next >= 1 /\ next <= Len(hist)) =>
                 LET o == hist[next].op IN o.k = "A" \/ Dec(o.k, o.n).st = "ok"
(* bits behind the write position and behind the capacity keep their initial value *)
Untouched == \A i \in (wpos + 1)..Len(wbuf) : wbuf[i] = wbuf[Len(wbuf)]
=============================================================================
