----------------------------- MODULE T_Message -----------------------------
EXTENDS Message, TraceBase
TInit == l = 1 /\ Init
(* the texts a value may take *)
TextsOf(e) ==
    CASE e.k \in {"cstr", "str", "sv", "enum"} -> {e.v}
      [] e.k = "int" -> {SText(e.v)}
      [] e.k = "uint" -> {UText(e.v)}
      [] e.k = "bool" -> {BoolText(e.v = 1)}
      [] e.k = "float" -> {FloatText(t) : t \in FloatTexts(e.v)}
      [] e.k = "vec" -> {<<118,101,99,116,111,114,40,91,46,46,46,93,44,32>> \o UText(e.v) \o <<41>>}
LookOk(e) == e.what = Seen(msg'[e.s]) /\ e.other = Seen(msg'[e.os])
TNew == IsEvent("New") /\ Create(Line.s, Line.v) /\ LookOk(Line) = TRUE
TApp == IsEvent("App") /\ (\E t \in TextsOf(Line) : AppendText(Line.s, t) /\ LookOk(Line) = TRUE)
TCopy == IsEvent("Copy") /\ CopyTo(Line.from, Line.s) /\ LookOk(Line) = TRUE
(* a thrown exception arrives with its own type and the text streamed to it *)
TThrow == IsEvent("Throw") /\ Line.caught = Line.type /\ Line.what = Seen(Cut(Line.v)) /\ UNCHANGED msg
TEnd == IsEvent("End") /\ UNCHANGED msg
TNext == TNew \/ TApp \/ TCopy \/ TThrow \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, msg>>
=============================================================================
