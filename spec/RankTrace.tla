----------------------------- MODULE RankTrace -----------------------------
(* Are the recorded answers of the real rank and select structures, and of *)
(* wrappers around every kind of store, those of RankSpec?                 *)
EXTENDS RankSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == l = 1 /\ segs = <<>> /\ win = <<0, 0>> /\ w = 8

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  CASE e.op = "vec" -> Make(e.segs, e.win[1], e.win[2], e.w)
             [] e.op = "ask" ->
                  /\ Len(e.qs) = Len(e.xs)
                  /\ \A i \in 1..Len(e.qs) :
                       IF AskOk(e.qs[i], e.xs[i]) THEN TRUE
                       ELSE PrintT(<<"WRONG", i, e.stack, e.qs[i], Take(e.xs[i], Min(70, Len(e.xs[i])))>>) /\ FALSE
                  /\ UNCHANGED rankVars

TraceSpec == TraceInit /\ [][TraceNext]_<<segs, win, w, l>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
