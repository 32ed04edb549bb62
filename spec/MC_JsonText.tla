----------------------------- MODULE MC_JsonText ----------------------------
(* Every short text, split in every way: reading it in pieces, as a tokenizer *)
(* with a buffer does (a scalar which reaches the end of what has been read   *)
(* is looked at again when more has come), yields the tokens of the text.     *)
EXTENDS JsonText, IOUtils
CONSTANTS MaxLen
Alphabet == {123, 44, 49, 45, 101, 34, 92, 32, 10, 13}
VARIABLES text, ref, have, buf, st, done
mv == <<text, ref, have, buf, st, done>>
(* ref: tokens still due in the text read as a whole; buf: what was read and not used, st: position relative to buf *)
Init == /\ \E n \in 0..MaxLen : text \in [1..n -> Alphabet]
        /\ ref = Start /\ have = 0 /\ buf = <<>> /\ st = Start /\ done = FALSE
Cut(s) == [s EXCEPT !.p = 1]
(* white space is skipped in the buffer; a carriage return at its end waits for the next piece *)
RECURSIVE SkipB(_, _)
SkipB(b, s) == IF s.p > Len(b) \/ (b[s.p] = 13 /\ s.p = Len(b)) THEN s
               ELSE CASE b[s.p] \in {32, 9} -> SkipB(b, [s EXCEPT !.p = @ + 1, !.col = @ + 1])
                      [] b[s.p] = 10 -> SkipB(b, [p |-> s.p + 1, ln |-> s.ln + 1, col |-> 1])
                      [] b[s.p] = 13 -> SkipB(b, [p |-> s.p + (IF b[s.p + 1] = 10 THEN 2 ELSE 1), ln |-> s.ln + 1, col |-> 1])
                      [] OTHER -> s
Local == LET s == SkipB(buf, st) IN
    IF s.p > Len(buf) \/ (buf[s.p] = 13 /\ s.p = Len(buf)) THEN [more |-> TRUE, s |-> s, t |-> "END_OF_FILE", n |-> 0]
    ELSE LET i == SelectInSeq(Punct, LAMBDA x : x.c = buf[s.p])
             v == Scan(buf, s.p)
         IN IF i # 0 THEN [more |-> FALSE, s |-> s, t |-> Punct[i].k, n |-> 1]
            ELSE [more |-> s.p + v.n - 1 >= Len(buf), s |-> s, t |-> IF v.k \in {"bad", "over"} THEN "ERROR" ELSE "VALUE", n |-> v.n]
(* another piece is read *)
Refill == /\ ~done /\ Local.more /\ have < Len(text)
          /\ \E k \in 1..(Len(text) - have) :
                /\ buf' = SubSeq(buf, Local.s.p, Len(buf)) \o SubSeq(text, have + 1, have + k) /\ have' = have + k
          /\ st' = Cut(Local.s) /\ UNCHANGED <<text, ref, done>>
Emit == /\ ~done /\ (~Local.more \/ have = Len(text))
        /\ LET w == Tok(text, ref) IN
           /\ Assert(w.tok = Local.t /\ w.ln = Local.s.ln /\ w.col = Local.s.col, <<"differs", text, w, Local>>)
           /\ ref' = w.st /\ done' = (w.tok \in {"END_OF_FILE", "ERROR"})
        /\ st' = [Local.s EXCEPT !.p = @ + Local.n, !.col = @ + Local.n]
        /\ UNCHANGED <<text, have, buf>>
Next == Refill \/ Emit
Spec == Init /\ [][Next]_mv /\ WF_mv(Next)
(* every text is read to its end or its first error *)
Finishes == <>done
=============================================================================
