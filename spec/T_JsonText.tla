------------------------------- MODULE T_JsonText -------------------------------
(* Recorded tokens, parser events, decoded and encoded values. *)
EXTENDS JsonText, TraceBase
NT == INSTANCE NumText
VARIABLES text, st, s, stack
jv == <<text, st, s, stack>>
TInit == l = 1 /\ text = <<>> /\ st = Start /\ s = "E" /\ stack = <<>>
(* a text is given: pad blanks, then t; how it is split into reads is not visible *)
TText == /\ IsEvent("Text") /\ text' = Line.t
         /\ st' = [Start EXCEPT !.col = 1 + Line.pad] /\ s' = "E" /\ stack' = <<>>
ValueOk(v) == IF Line.tok = "VALUE" THEN Denotes(v, Line.k, Line.b)
              ELSE Line.tok = "ERROR" => Line.over = (v.k = "over")
TNextTok == /\ IsEvent("Next")
            /\ LET r == Tok(text, st) IN
               /\ Line.tok = r.tok /\ Line.ln = r.ln /\ Line.col = r.col /\ ValueOk(r.val)
               /\ st' = r.st
            /\ UNCHANGED <<text, s, stack>>
(* the next thing the parser reports: separators are consumed silently *)
RECURSIVE Adv(_, _, _)
Adv(x, y, z) ==
    LET r == Tok(text, x)
        p == Parse(y, z, r.tok, r.val.k = "str")
    IN IF r.tok = "ERROR" \/ ~p.ok THEN [ev |-> "error", r |-> r, st |-> x, s |-> y, stack |-> z]
       ELSE IF p.ev = "none" THEN Adv(r.st, p.s, p.stack)
       ELSE [ev |-> p.ev, r |-> r, st |-> r.st, s |-> p.s, stack |-> p.stack]
TEvent == /\ IsEvent("On") /\ s # "D"
          /\ LET a == Adv(st, s, stack) IN
             /\ a.ev = Line.ev
             /\ Line.ev \in {"value", "key"} => Denotes(a.r.val, Line.k, Line.b)
             /\ st' = a.st /\ s' = a.s /\ stack' = a.stack
          /\ UNCHANGED text
At1(r) == Line.ln = r.ln /\ Line.col = r.col
TRet == /\ IsEvent("Ret")
        /\ LET n == Tok(text, st)
               a == Adv(st, s, stack)
               b == Tok(text, a.st)
               fresh == s = "E" /\ stack = <<>> IN
           CASE Line.r = "true" -> (s = "D" \/ fresh) /\ n.tok = "END_OF_FILE" /\ At1(n)
             [] Line.r = "false" -> s = "D" /\ n.tok \notin {"END_OF_FILE", "ERROR"} /\ At1(n)
             [] OTHER -> IF s = "D" THEN n.tok = "ERROR" /\ At1(n)
                         ELSE IF a.ev = "error" THEN At1(a.r) /\ ~(fresh /\ n.tok = "END_OF_FILE")
                         ELSE a.ev \notin {"value", "key"} /\ b.tok = "ERROR" /\ At1(b)
        /\ s' = "E" /\ stack' = <<>> /\ UNCHANGED <<text, st>>
(* single values *)
TDec == /\ IsEvent("Dec") /\ UNCHANGED jv
        /\ LET v == Scan(Line.t, 1) IN
           /\ Line.n = v.n
           /\ IF v.k \in {"bad", "over"} THEN Line.k = "none" /\ Line.over = (v.k = "over")
              ELSE Denotes(v, Line.k, Line.b) /\ ~Line.over
TEncStr == IsEvent("EncStr") /\ UNCHANGED jv /\ Line.t = EncStr(Line.v)
TEncInt == IsEvent("EncInt") /\ UNCHANGED jv /\ Line.t = (IF Line.sg THEN NT!SText(Line.v) ELSE NT!UText(Line.v))
TEncWord == IsEvent("EncWord") /\ UNCHANGED jv /\ Line.t = Words[Line.w].w
(* the text of a double denotes that double and no other *)
TEncDbl == /\ IsEvent("EncDbl") /\ UNCHANGED jv
           /\ LET v == Scan(Line.t, 1) IN v.n = Len(Line.t) /\ Denotes(v, "dbl", Line.v)
TEnd == IsEvent("End") /\ UNCHANGED jv
TNext == TText \/ TNextTok \/ TEvent \/ TRet \/ TDec \/ TEncStr \/ TEncInt \/ TEncWord \/ TEncDbl \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, jv>>
=============================================================================
