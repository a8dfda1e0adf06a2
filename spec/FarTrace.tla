------------------------------ MODULE FarTrace ------------------------------
(* Is a recorded history of a real, very long sequence one of FarSpec?     *)
EXTENDS FarSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TraceInit == l = 1 /\ len = <<>> /\ g = 0 /\ ex = {} /\ pos = <<>> /\ w = 8 /\ eb = 1 /\ ev = [p |-> 0, x |-> <<>>]

SetOf(s) == {s[i] : i \in 1..Len(s)}

Apply(e) ==
    LET a == e.a  op == e.op  win == Window(e.path, 1, <<>>, len) IN
    IF op = "make" THEN Make(e.len, e.g, SetOf(e.ex), e.w, e.eb)
    ELSE IF win = <<>> THEN Refuse
    ELSE
    CASE op = "get_bit"   -> GetBit(win, a[1])
      [] op = "get_bits"  -> GetBits(win, a[1], a[2])
      [] op = "get_block" -> GetBlock(win, a[1])
      [] op = "set_bit"   -> SetBit(win, a[1], a[2])
      [] op = "set_bits"  -> SetBits(win, a[1], a[2], a[3])
      [] op = "set_block" -> SetBlock(win, a[1], a[2])
      [] op = "slen"      -> SLen(win)
      [] op = "push_bit"  -> PushBit(a[1])
      [] op = "pop_bit"   -> PopBit
      [] op = "push_block" -> PushBlock(a[1])
      [] op = "align_block" -> AlignBlock(a[1])
      [] op = "truncate"  -> Truncate(a[1])
      [] op = "resize"    -> Resize(a[1], a[2])
      [] op = "block_resize" -> BlockResize(a[1])
      [] op = "block_truncate" -> BlockTruncate(a[1])
      [] op = "get"       -> IvGet(a[1])
      [] op = "set"       -> IvSet(a[1], a[2])
      [] op = "push"      -> IvPush(a[1])
      [] op = "pop"       -> IvPop
      [] op = "iv_truncate" -> IvTruncate(a[1])
      [] op = "iv_resize" -> IvResize(a[1], a[2])
      [] op = "compare"   -> Compare(a, e.x)
      [] op = "room"      -> Room(a, e.x)
      [] op = "get_random" -> GetRandom(a[1], a[2], a[3])
      [] op = "set_random" -> SetRandom(a[1], a[2], a[3], a[4])
      [] op = "walk"      -> Iterate(a[1], e.items, e.k = "bv")
      [] op = "rank"      -> AskRank(a[1], a[2])
      [] op = "limit"     -> Look(TRUE, <<len>>)
      [] op = "select"    -> AskSelect(a[1], a[2], e.x)
      [] op = "seek"      -> Seek(a[1])
      [] op = "read"      -> Read
      [] op = "write"     -> Write(a[1])
      [] op = "wint"      -> WInt(a[1], a[2] = 1, a[3])
      [] op = "rint"      -> RInt(a[1], a[2] = 1, e.pos)
      [] op = "scan"      -> Look(TRUE, <<>>)

\* Kinds whose unused bits must read as zero
Owned(e) == e.k \in {"bv", "iv"} /\ e.path = <<>>

SameResult(e) ==
    CASE e.op = "get_block" -> /\ Len(e.x) >= Len(ev'.x) /\ Take(e.x, Len(ev'.x)) = ev'.x
                               /\ Owned(e) => IsZero(Drop(e.x, Len(ev'.x)))
      [] e.op = "scan" -> SetOf(e.x) = ex
      [] OTHER -> e.x = ev'.x

\* elements there are
Items(e) ==
    /\ e.op = "walk" => WMul(e.items, WNat(eb)) = len
    /\ e.op \in {"get", "set", "push", "pop", "iv_truncate", "iv_resize", "walk", "compare", "room"} => e.k \in {"bv", "iv"}

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  /\ Items(e)
           /\ Apply(e)
           /\ e.p = ev'.p
           /\ e.p = 0 => SameResult(e)
           /\ e.n = len'
           /\ WLeq(len', WMulSmall(e.nb, w')) /\ WLess(WMulSmall(e.nb, w'), WAdd(len', WNat(w')))
           /\ e.pos = pos'

TraceSpec == TraceInit /\ [][TraceNext]_<<farVars, ev, l>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
