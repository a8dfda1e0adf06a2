----------------------------- MODULE CodeTrace -----------------------------
(* Is a recorded history of real streams and codes a behaviour of CodeSpec?*)
EXTENDS CodeSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == l = 1 /\ b = <<>> /\ rd = 0

Apply(e) ==
    CASE e.op = "new"  -> Reset
      [] e.op = "raw"  -> Raw(e.d)
      [] e.op = "enc"  -> Encode(e.c, e.v, e.f, e.p, e.d, e.full)
      [] e.op = "dec"  -> Decode(e.c, e.f, e.p, e.x, e.rd)
      [] e.op = "wint" -> WriteInt(e.n, e.be = 1, e.v, e.f, e.p, e.d)
      [] e.op = "rint" -> ReadInt(e.w, e.n, e.be = 1, e.f, e.p, e.x, e.rd)
      [] e.op = "rbit" -> ReadBit_(e.p, e.x, e.rd)
      [] e.op = "exam" -> ExamOk(e.c, e.v, e) /\ UNCHANGED codeVars
      [] e.op = "probe" -> ProbeOk(e.c, e.d, e.p, e.x, e.rd) /\ UNCHANGED codeVars
      [] e.op = "iexam" -> IntExamOk(e.w, e.n, e.be = 1, e.v, e) /\ UNCHANGED codeVars

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  /\ Apply(e)
           /\ e.len = Len(b')

TraceSpec == TraceInit /\ [][TraceNext]_<<b, rd, l>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
