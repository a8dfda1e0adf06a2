------------------------------ MODULE VecImpl ------------------------------
(***************************************************************************)
(* The design of the owned vectors (src/internal/vector_base.rs): a length *)
(* and an array of blocks.  Two promises carry everything else:            *)
(*                                                                         *)
(*   Tight   there are exactly as many blocks as the contents need,        *)
(*   Clean   the bits of the last block that hold nothing are zero,        *)
(*                                                                         *)
(* and they are what makes comparing and hashing the blocks comparing and  *)
(* hashing the contents (Canonical).  TLC checks that every operation, run *)
(* the way the code runs it, keeps them and is a step of VecSpec on the    *)
(* sequence the blocks show (Refines), for every block width up to 4 bits, *)
(* every element width, and every length up to three blocks and a half.    *)
(* Block widths are a parameter of the algorithms, so nothing depends on   *)
(* their being 8, 16, 32, 64 bits.                                         *)
(***************************************************************************)
EXTENDS Bits, TLC

CONSTANTS BW, MaxBlocks

VARIABLES
    w, eb,      \* block width and element width, fixed at creation
    len,        \* length in elements
    blk,        \* sequence of blocks
    op,         \* the last operation and its arguments
    ev          \* its observation, as VecSpec records it

implVars == <<w, eb, len, blk>>

RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE bs[1] \o Flat(Tail(bs))

\* What the blocks show
Abs == Take(Flat(blk), len * eb)

V == INSTANCE VecSpec WITH
        regs <- <<[k |-> IF eb = 1 THEN "bv" ELSE "iv", w |-> w, eb |-> eb, b |-> Abs]>>,
        its <- <<>>

Zero == Rep(0, w) \o <<>>
Blocks == BitSeqs(w)

\* set_bits / get_bits on the array of blocks
RECURSIVE Cut(_)
Cut(f) == IF f = <<>> THEN <<>> ELSE <<Take(f, w)>> \o Cut(Drop(f, w))
Write(bs, s, c, v) == Cut(PutSpan(Flat(bs), s, c, v))
Read(bs, s, c) == Widen(Span(Flat(bs), s, c), w)

\* mask the unused bits of the last block, given the number of bits in use
Masked(bs, nbits) ==
    IF bs = <<>> THEN bs
    ELSE LET last == IF nbits % w = 0 THEN w ELSE nbits % w
         IN  [bs EXCEPT ![Len(bs)] = Take(@, last) \o Rep(0, w - last)]

\* the length follows from the number of blocks
FromBlocks(bs) ==
    LET l == (Len(bs) * w) \div eb
    IN  len' = l /\ blk' = Masked(bs, l * eb)

Resized(n, v) == IF n <= Len(blk) THEN Take(blk, n) ELSE blk \o Rep(v, n - Len(blk))

Did(o, x) == op' = o /\ ev' = [op |-> o[1], p |-> 0, x |-> x] /\ UNCHANGED <<w, eb>>
Small == Len(blk) < MaxBlocks

Init == /\ w \in 1..BW /\ eb \in 1..w
        /\ len = 0 /\ blk = <<>>
        /\ op = <<"init">> /\ ev = [op |-> "init", p |-> 0, x |-> <<>>]

PushBit(x) ==
    /\ eb = 1 /\ (Small \/ len < Len(blk) * w)
    /\ LET bs == IF len + 1 > Len(blk) * w THEN Append(blk, Zero) ELSE blk
       IN  len' = len + 1 /\ blk' = Write(bs, len, 1, <<x>>)
    /\ Did(<<"push_bit", x>>, <<>>)

PopBit ==
    /\ eb = 1
    /\ IF len = 0 THEN UNCHANGED <<len, blk>> /\ Did(<<"pop_bit">>, <<>>)
       ELSE LET bs == Write(blk, len - 1, 1, <<0>>)
            IN  /\ len' = len - 1
                /\ blk' = IF Len(bs) > CeilDiv(len - 1, w) THEN Take(bs, Len(bs) - 1) ELSE bs
                /\ Did(<<"pop_bit">>, Take(Read(blk, len - 1, 1), 1))

Push(v) ==
    /\ FitsIn(v, eb) /\ (Small \/ (len + 1) * eb <= Len(blk) * w)
    /\ LET bs == IF (len + 1) * eb > Len(blk) * w THEN Append(blk, Zero) ELSE blk
       IN  len' = len + 1 /\ blk' = Write(bs, len * eb, eb, v)
    /\ Did(<<"push", v>>, <<>>)

Pop ==
    IF len = 0 THEN UNCHANGED <<len, blk>> /\ Did(<<"pop">>, <<>>)
    ELSE LET n == (len - 1) * eb
             bs == Write(blk, n, eb, Zero)
         IN  /\ len' = len - 1
             /\ blk' = IF Len(bs) > CeilDiv(n, w) THEN Take(bs, Len(bs) - 1) ELSE bs
             /\ Did(<<"pop">>, Read(blk, n, eb))

PushBlock(v) == eb = 1 /\ Small /\ FromBlocks(Append(blk, v)) /\ Did(<<"push_block", v>>, <<>>)

BlockTruncate(n) ==
    /\ IF n < Len(blk) THEN FromBlocks(Take(blk, n)) ELSE UNCHANGED <<len, blk>>
    /\ Did(<<"block_truncate", n>>, <<>>)

BlockResize(n, v) == FromBlocks(Resized(n, v)) /\ Did(<<"block_resize", n, v>>, <<>>)

Truncate(n) ==
    /\ IF n < len
       THEN len' = n /\ blk' = Masked(Take(blk, CeilDiv(n * eb, w)), n * eb)
       ELSE UNCHANGED <<len, blk>>
    /\ Did(<<"truncate", n>>, <<>>)

RECURSIVE FillFrom(_, _, _, _)
FillFrom(bs, i, n, v) == IF i >= n THEN bs ELSE FillFrom(Write(bs, i * eb, eb, v), i + 1, n, v)

Resize(n, v) ==
    /\ FitsIn(v, eb) /\ n * eb <= MaxBlocks * w
    /\ LET bs == Resized(CeilDiv(n * eb, w), Zero)
       IN  /\ len' = n
           /\ blk' = IF n <= len THEN Masked(bs, n * eb) ELSE FillFrom(bs, len, n, v)
    /\ Did(<<"iv_resize", n, v>>, <<>>)

Clear == len' = 0 /\ blk' = <<>> /\ Did(<<"clear">>, <<>>)

SetBits(s, c, v) ==
    /\ eb = 1 /\ s + c <= len
    /\ blk' = Write(blk, s, c, v) /\ UNCHANGED len
    /\ Did(<<"set_bits", s, c, v>>, <<>>)

SetBlock(k, v) ==
    /\ k < Len(blk)
    /\ LET bs == [blk EXCEPT ![k + 1] = v]
       IN  blk' = IF k + 1 = Len(bs) THEN Masked(bs, len * eb) ELSE bs
    /\ UNCHANGED len
    /\ Did(<<"set_block", k, v>>, <<>>)

Set(i, v) ==
    /\ i < len /\ FitsIn(v, eb)
    /\ blk' = Write(blk, i * eb, eb, v) /\ UNCHANGED len
    /\ Did(<<"set", i, v>>, <<>>)

Next ==
    \/ \E x \in Bit : PushBit(x)
    \/ PopBit \/ Pop \/ Clear
    \/ \E v \in Blocks :
         \/ Push(v) \/ PushBlock(v)
         \/ \E n \in 0..MaxBlocks : BlockResize(n, v)
         \/ \E n \in 0..MaxBlocks * w : Resize(n, v)
         \/ \E i \in 0..len : Set(i, v)
         \/ \E k \in 0..Len(blk) : SetBlock(k, v)
         \/ \E s \in 0..len, c \in 0..w : SetBits(s, c, v)
    \/ \E n \in 0..MaxBlocks : BlockTruncate(n)
    \/ \E n \in 0..len + 1 : Truncate(n)

Spec == Init /\ [][Next]_<<w, eb, len, blk, op, ev>>

\* op and ev are history
View == <<w, eb, len, blk>>

Tight == Len(blk) = CeilDiv(len * eb, w)
Clean == Flat(blk) = Pad(Abs, w)
TypeOK == /\ \A i \in 1..Len(blk) : Len(blk[i]) = w
          /\ len * eb <= Len(blk) * w

\* Every step is the VecSpec step of the same name with the same arguments.
AbsStep ==
    LET o == op' IN
    CASE o[1] = "push_bit"  -> V!PushBit(1, o[2])
      [] o[1] = "pop_bit"   -> V!PopBit(1)
      [] o[1] = "push"      -> V!IvPush(1, o[2])
      [] o[1] = "pop"       -> V!IvPop(1)
      [] o[1] = "push_block" -> V!PushBlock(1, o[2])
      [] o[1] = "block_truncate" -> V!BlockTruncate(1, o[2])
      [] o[1] = "block_resize" -> V!BlockResize(1, o[2], o[3])
      [] o[1] = "truncate"  -> V!Truncate(1, o[2])
      [] o[1] = "iv_resize" -> V!IvResize(1, o[2], o[3], FALSE)
      [] o[1] = "clear"     -> V!Clear(1)
      [] o[1] = "set_bits"  -> V!SetBits(1, <<>>, o[2], o[3], o[4])
      [] o[1] = "set_block" -> V!SetBlock(1, <<>>, o[2], o[3])
      [] o[1] = "set"       -> V!IvSet(1, o[2], o[3])
Refines == [][AbsStep]_<<w, eb, len, blk, op, ev>>
=============================================================================
