----------------------------- MODULE LongTrace -----------------------------
(* Is a recorded history of real codes on long streams one of LongSpec?    *)
EXTENDS LongSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == l = 1 /\ runs = <<>> /\ at = <<>> /\ all = <<>> /\ b = <<>> /\ rd = 0

Apply(e) ==
    CASE e.op = "new"  -> LReset
      [] e.op = "feed" -> Grow(Normal(e.d))
      [] e.op = "enc"  -> LEncode(e.c, e.v, e.f, e.p, e.d, e.full)
      [] e.op = "dec"  -> LDecode(e.c, e.f, e.p, e.x, e.rd)
      [] e.op = "rint" -> LReadInt(e.w, e.n, e.be = 1, e.p, e.x, e.rd)

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ UNCHANGED codeVars
    /\ LET e == Trace[l]
       IN  /\ Apply(e)
           /\ e.len = all'
           /\ e.rd = at'

TraceSpec == TraceInit /\ [][TraceNext]_<<longVars, codeVars, l>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
