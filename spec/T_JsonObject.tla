---------------------------- MODULE T_JsonObject ----------------------------
(* Texts written and objects read. *)
EXTENDS JsonObject, TraceBase
VARIABLES text, st  \* the text of the stream, where the reader is in it ([p |-> 0] when it can go no further)
jv == <<vars, text, st>>
TInit == l = 1 /\ Init("u8") /\ text = <<>> /\ st = J!Start
W == [ind |-> Trace[l].ind, item |-> Trace[l].item, key |-> Trace[l].key, names |-> Trace[l].names]
TWrite == /\ IsEvent("Write") /\ UNCHANGED jv
          /\ LET o == ValueText(W, 0, Trace[l].t, Trace[l].v) IN Trace[l].out = o
TOpen == IsEvent("Open") /\ text' = Trace[l].text /\ st' = J!Start /\ UNCHANGED vars
TRead == /\ IsEvent("Read") /\ UNCHANGED <<vars, text>> /\ st.p # 0
         /\ LET q == Read(Trace[l].t, text, st) IN
            /\ Trace[l].ok = (q.r = "ok")
            /\ q.r = "ok" => Trace[l].v = q.a.v
            /\ st' = IF q.r = "broken" THEN [st EXCEPT !.p = 0] ELSE q.st
TStuck == IsEvent("Read") /\ UNCHANGED jv /\ st.p = 0
TEnd == IsEvent("End") /\ UNCHANGED jv
TNext == TWrite \/ TOpen \/ TRead \/ TStuck \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, jv>>
=============================================================================
