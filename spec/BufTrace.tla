------------------------------ MODULE BufTrace ------------------------------
(* Is a recorded history of a real bit buffer a behaviour of BufSpec?      *)
EXTENDS BufSpec, Integers, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == l = 1 /\ b = <<>> /\ pos = 0 /\ w = 8 /\ ev = [p |-> 0, x |-> <<>>]

\* What bits are a codeword, and what they denote
C == INSTANCE CodeSpec WITH rd <- pos, WB <- 64
Says(e) == ev' = [p |-> e.p, x |-> e.x]
Encode(e) == /\ C!EncodeOk(e.c, e.v, -1, e.p, e.x, e.full)
             /\ b' = Over(b, pos, e.x) /\ pos' = pos + Len(e.x) /\ UNCHANGED w /\ Says(e)
Decode(e) == /\ C!DecodesOn(b, pos, C!Dec(e.c, b, pos), -1, e.p, e.x, e.pos)
             /\ pos' = e.pos /\ UNCHANGED <<b, w>> /\ Says(e)

Apply(e) ==
    LET a == e.a  op == e.op IN
    CASE op = "open"    -> Open(a[1], e.w)
      [] op = "append"  -> Append_(a[1], e.w)
      [] op = "read"    -> ReadBit
      [] op = "write"   -> WriteBit(a[1])
      [] op = "wint"    -> WriteInt(a[1], a[2] = 1, a[3])
      [] op = "rint"    -> ReadInt(a[1], a[2] = 1, e.tw)
      [] op = "enc"     -> Encode(e)
      [] op = "dec"     -> Decode(e)
      [] op = "seek"    -> Seek(a[1])
      [] op = "get_bit" -> GetBit(a[1])
      [] op = "get_bits" -> GetBits(a[1], a[2])
      [] op = "get_block" -> GetBlock(a[1])
      [] op = "set_bit" -> SetBit(a[1], a[2])
      [] op = "set_bits" -> SetBits(a[1], a[2], a[3])
      [] op = "set_block" -> SetBlock(a[1], a[2])
      [] op = "reopen"  -> Reopen
      [] op = "reappend" -> Reappend
      [] op = "clone"   -> Look(TRUE, <<>>)

SameResult(e) ==
    IF e.op = "get_block"
    THEN Len(e.x) >= Len(ev'.x) /\ Take(e.x, Len(ev'.x)) = ev'.x
    ELSE e.x = ev'.x

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  /\ Apply(e)
           /\ e.p = ev'.p
           /\ e.p = 0 => SameResult(e)
           /\ e.pos = pos'
           /\ e.n = Len(b')
           /\ e.nb = BlockLen(Len(b'), w')
           /\ e.hd = 1 => e.d = b'

TraceSpec == TraceInit /\ [][TraceNext]_<<b, pos, w, ev, l>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
