----------------------------- MODULE T_TypeInfo -----------------------------
EXTENDS TypeInfos, TraceBase
tv == <<l>>
TInit == l = 1
TPred == IsEvent("Pred") /\ Line.schema \in SchemaKinds /\ Line.is = SchemaIs(Line.schema)
TCpp == IsEvent("PredCpp") /\ Line.cpp \in CppKinds /\ Line.is = CppIs(Line.cpp)
TBuiltin == /\ IsEvent("Builtin")
            /\ LET b == Builtin(Line.k, Line.w, Line.sg) IN
               Line.name = b[1] /\ Line.schema = b[2] /\ Line.cpp = b[3] /\ Line.got = BuiltinReport(b)
TDesc == IsEvent("Desc") /\ Line.name = Line.given /\ Line.schema = KindOf(Line.kind) /\ Line.cpp = KindOf(Line.kind)
                         /\ Line.got = Report(Line.kind, Line.c)
TEnd == IsEvent("End")
TNext == TPred \/ TCpp \/ TBuiltin \/ TDesc \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
