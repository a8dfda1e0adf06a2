------------------------------ MODULE FunTrace ------------------------------
(* Are the recorded answers of the real functions those of FunSpec?        *)
EXTENDS FunSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

AskOk(e, q, x) == IF e.op = "word" THEN WordAsk(q, x) ELSE BlockAsk(e.w, q, x)

TraceInit == l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  /\ Len(e.qs) = Len(e.xs)
           /\ \A i \in 1..Len(e.qs) :
                IF AskOk(e, e.qs[i], e.xs[i]) THEN TRUE
                ELSE PrintT(<<"WRONG", i, e.qs[i], e.xs[i]>>) /\ FALSE

TraceSpec == TraceInit /\ [][TraceNext]_l

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
