----------------------------- MODULE T_NumText -----------------------------
EXTENDS NumText, TraceBase
TInit == l = 1
TIntText == IsEvent("Int") /\ Line.t = (IF Line.sg THEN SText(Line.v) ELSE UText(Line.v))
            /\ Line.str = Line.t /\ Line.wrap = Line.t
TBool == IsEvent("Bool") /\ Line.t = BoolText(Line.v) /\ Line.str = Line.t
TFloat == IsEvent("Float") /\ (<<Line.t, Line.fr>> \in FloatTexts(Line.v))
TText == IsEvent("Text") /\ Line.out = Line.in
TEnd == IsEvent("End")
TNext == TIntText \/ TBool \/ TFloat \/ TText \/ TEnd
TSpec == TInit /\ [][TNext]_l
=============================================================================
