----------------------------- MODULE T_Extended -----------------------------
EXTENDS Extended, TraceBase
tv == <<vars, l>>
TInit == l = 1 /\ kind = "int" /\ xs = [s \in Slots |-> X(TRUE, <<0>>, 0)]
S0 == Line.s
T0 == Line.t
Seen(s) == Line.all[s + 1]
Left(s) == X(Seen(s).p, Seen(s).v, Seen(s).r)
(* a moved-from value is free; the trace says what it is *)
Agrees == \A s \in Slots : LET o == Seen(s) IN /\ X(o.p, o.v, o.r) = xs'[s] /\ o.same
Step == \/ IsEvent("Begin") /\ Start(Line.k)
        \/ IsEvent("Make") /\ Make(S0)
        \/ IsEvent("MakeV") /\ MakeV(S0, Line.v, Line.r)
        \/ IsEvent("CopyC") /\ CopyC(S0, T0)
        \/ IsEvent("CopyCA") /\ CopyCA(S0, T0, Line.r)
        \/ IsEvent("MoveC") /\ MoveC(S0, T0, Left(S0))
        \/ IsEvent("MoveCA") /\ MoveCA(S0, T0, Line.r, Left(S0))
        \/ IsEvent("CopyA") /\ CopyA(S0, T0)
        \/ IsEvent("MoveA") /\ MoveA(S0, T0, Left(S0))
        \/ IsEvent("Present") /\ Present(S0, Line.b)
        \/ IsEvent("Value") /\ Value(S0, Line.v)
        \/ IsEvent("Cmp") /\ UNCHANGED vars
           /\ Line.rel = Rel(Ord(xs[S0], xs[T0]))
           /\ Line.h = (IF xs[S0].p THEN Line.hv ELSE Line.seed)
           /\ Line.std = (IF xs[S0].p THEN Line.stdv ELSE Line.stdseed)
TNext == \/ Step /\ (Agrees = TRUE)
         \/ IsEvent("End") /\ UNCHANGED vars   \* everything is gone and nothing is left allocated
TSpec == TInit /\ [][TNext]_tv
=============================================================================
