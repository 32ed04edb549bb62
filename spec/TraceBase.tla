----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace; every trace line is one step.                   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Line == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
(* accepted: every line was consumed and the driver reached its end *)
Accepted ==
    LET d == TLCGet("stats").diameter
    IN IF d - 1 = Len(Trace) /\ Len(Trace) > 0 /\ Trace[Len(Trace)].e = "End"
       THEN TRUE
       ELSE /\ PrintT(<<"REJECTED", d, Len(Trace)>>) /\ FALSE
=============================================================================
