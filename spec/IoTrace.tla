------------------------------ MODULE IoTrace ------------------------------
(* Is a recorded history of real block I/O a behaviour of IoSpec?          *)
EXTENDS IoSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == l = 1 /\ bytes = <<>> /\ rd = 0

Apply(e) ==
    CASE e.op = "new"  -> Reset
      [] e.op = "raw"  -> Raw(e.d)
      [] e.op = "put"  -> WriteBlock(e.v, e.be = 1, e.f, e.h = 1, e.p, e.d)
      [] e.op = "get"  -> ReadBlock(e.w, e.be = 1, e.f, e.h = 1, e.p, e.x, e.rd)

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ Apply(Trace[l])
    /\ Trace[l].len = Len(bytes')

TraceSpec == TraceInit /\ [][TraceNext]_<<bytes, rd, l>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
