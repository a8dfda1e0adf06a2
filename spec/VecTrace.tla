------------------------------ MODULE VecTrace ------------------------------
(***************************************************************************)
(* Is a recorded history of the real code a behaviour of VecSpec?          *)
(*                                                                         *)
(* Every line of the trace is one call: its name and arguments select the  *)
(* action, its outcome must be the action's observation, and the state the *)
(* code shows afterwards must be the action's successor state.             *)
(***************************************************************************)
EXTENDS VecSpec, CapSpec, WrapSpec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l,      \* next line
    caps    \* register -> block capacity last seen (0 when not tracked)

NRegs == 8
NIts == 4

TraceInit ==
    /\ l = 1
    /\ regs = [r \in 1..NRegs |-> NoStore]
    /\ its = [i \in 1..NIts |-> NoIter]
    /\ ev = Obs("init", TRUE, <<>>)
    /\ caps = [r \in 1..NRegs |-> 0]

Big(e) == e.big = 1

Apply(e) ==
    LET r == e.r  a == e.a  op == e.op IN
    \* sizes too large to represent are always refused
    IF Big(e) THEN Look(op, FALSE, <<>>)
    ELSE
    CASE op = "push_bit"      -> PushBit(r, a[1])
      [] op = "pop_bit"       -> PopBit(r)
      [] op = "get_bit"       -> GetBit(r, e.path, a[1])
      [] op = "get_bits"      -> GetBits(r, e.path, a[1], a[2])
      [] op = "get_block"     -> GetBlock(r, e.path, a[1])
      [] op = "set_bit"       -> SetBit(r, e.path, a[1], a[2])
      [] op = "set_bits"      -> SetBits(r, e.path, a[1], a[2], a[3])
      [] op = "set_block"     -> SetBlock(r, e.path, a[1], a[2])
      [] op = "slen"          -> SLen(r, e.path)
      [] op = "get"           -> IvGet(r, a[1])
      [] op = "set"           -> IvSet(r, a[1], a[2])
      [] op = "push"          -> IvPush(r, a[1])
      [] op = "pop"           -> IvPop(r)
      [] op = "get_random"    -> GetRandom(r, a[1], a[2], a[3])
      [] op = "set_random"    -> SetRandom(r, a[1], a[2], a[3], a[4])
      [] op = "push_block"    -> PushBlock(r, a[1])
      [] op = "align_block"   -> AlignBlock(r, a[1])
      [] op = "truncate"      -> Truncate(r, a[1])
      [] op = "block_truncate" -> BlockTruncate(r, a[1])
      [] op = "resize"        -> Resize(r, a[1], a[2])
      [] op = "iv_resize"     -> IvResize(r, a[1], a[2], FALSE)
      [] op = "block_resize"  -> BlockResize(r, a[1], a[2])
      [] op = "clear"         -> Clear(r)
      [] op = "clone"         -> Clone(r, a[1])
      [] op = "it_next"       -> ItNext(a[1])
      [] op = "it_back"       -> ItNextBack(a[1])
      [] op = "it_nth"        -> ItNth(a[1], a[2])
      [] op = "it_nth_back"   -> ItNthBack(a[1], a[2])
      [] op = "it_len"        -> ItLen(a[1])
      [] op = "it_hint"       -> ItHint(a[1])
      [] op = "it_count"      -> ItCount(a[1])
      [] op = "it_last"       -> ItLast(a[1])
      [] op = "it_collect"    -> ItCollect(a[1])
      [] op = "it_rev"        -> ItRev(a[1])
      [] op = "it_clone"      -> ItClone(a[1], a[2])
      [] op = "it_use"        -> ItUse(a[1], e.how, a[2], a[3])
      [] op = "it_new"        -> ItNew(a[1], r)
      [] op = "iv_info"       -> IvInfo(r)
      [] op = "fmt_bin"       -> FmtBinary(r)
      [] op = "cmp"           -> Look("cmp", TRUE, <<>>)
      [] op = "st_new"        -> NewStore(r, e.k, e.w, a[1])
      [] op = "bv_new"        -> BvNew(r, a[1])
      [] op = "bv_cap"        -> BvCap(r, a[1], FALSE)
      [] op = "bv_bcap"       -> BvCap(r, a[1], FALSE)
      [] op = "bv_fill"       -> BvFill(r, a[1], a[2], a[3], FALSE)
      [] op = "bv_bfill"      -> BvBlockFill(r, a[1], a[2], a[3])
      [] op = "iv_new"        -> IvNew(r, a[1], a[2])
      [] op = "iv_cap"        -> IvCap(r, a[1], a[2], FALSE)
      [] op = "iv_bcap"       -> IvCap(r, a[1], a[2], FALSE)
      [] op = "iv_fill"       -> IvFill(r, a[1], a[2], a[3], a[4], FALSE)
      [] op = "iv_bfill"      -> IvBlockFill(r, a[1], a[2], a[3], a[4])
      [] op \in ReserveOps \cup BlockReserveOps -> Look(op, TRUE, <<>>)
      [] op = "shrink_to_fit" -> Look(op, TRUE, <<>>)

(* The observation.  A block read from a store that makes no promise about *)
(* its unused bits is compared on the bits that exist.                     *)
SameResult(e) ==
    IF e.op = "get_block"
    THEN IF Len(e.x) < Len(ev'.x) THEN FALSE
         ELSE /\ Take(e.x, Len(ev'.x)) = ev'.x
              /\ (regs[e.r].k \in {"bv", "iv"} /\ Len(e.path) = 0) =>
                     IsZero(Drop(e.x, Len(ev'.x)))
    ELSE IF e.op = "cmp" THEN CmpOk(regs[e.a[1]], regs[e.a[2]], regs[e.a[3]], e.x)
    ELSE e.x = ev'.x

\* The register a step concerns
Reg(e) == IF e.op = "clone" THEN e.a[1] ELSE e.r

(* The state the code shows after the call: length in bits and blocks, and *)
(* (when recorded) every block of an owned vector, every bit of the others.*)
SameState(e) ==
    LET g == regs'[Reg(e)]
    IN  /\ e.n = Len(g.b)
        /\ e.nb = BlockLen(Len(g.b), g.w)
        /\ e.hd = 1 =>
             e.d = IF g.k \in {"bv", "iv"} THEN Pad(g.b, g.w) ELSE g.b

SameCap(e) ==
    IF e.hc = 0 THEN UNCHANGED caps
    ELSE LET q == Reg(e)
             g == regs'[q]
             fresh == e.op \in {"bv_new", "bv_cap", "bv_bcap", "bv_fill", "bv_bfill",
                        "iv_new", "iv_cap", "iv_bcap", "iv_fill", "iv_bfill", "clone"}
         IN  /\ e.cap = CapElems(e.bc, g.w, g.eb)
             /\ caps' = [caps EXCEPT ![q] = e.bc]
             /\ CapStep(e.op, e.a, g.w, g.eb,
                        IF fresh THEN 0 ELSE Len(regs[q].b),
                        IF fresh /\ ev'.p = 0 THEN 0 ELSE caps[q],
                        Len(g.b), e.bc, e.al, ev'.p = 0)

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN  /\ Apply(e)
           /\ e.p = ev'.p
           /\ e.p = 0 => SameResult(e)
           /\ e.n >= 0 => SameState(e)
           /\ SameCap(e)

TraceSpec == TraceInit /\ [][TraceNext]_<<regs, its, ev, l, caps>>

TraceAccepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
