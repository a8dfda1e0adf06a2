----------------------------- MODULE SpaceTrace -----------------------------
(* Does the space reported by the real structures, and the memory they     *)
(* really hold (counted at the allocator: e.live), follow SpaceSpec?       *)
EXTENDS SpaceSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == l = 1 /\ live = 0
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  /\ e.p = 0
           /\ Observe(e.t, e.size, e.stack, e.heap, e.total, e.so = 1)
           /\ e.live = live'

TraceSpec == TraceInit /\ [][TraceNext]_<<live, l>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
