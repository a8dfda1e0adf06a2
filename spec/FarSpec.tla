------------------------------ MODULE FarSpec ------------------------------
(***************************************************************************)
(* Bit sequences too long to write down: up to 2^64 bits, nearly all of    *)
(* them alike.  A sequence is its length, the common bit g, and the set ex *)
(* of positions where the other bit stands.  Positions are wide numbers    *)
(* (module Wide).  The operations are those of VecSpec, BufSpec, WrapSpec  *)
(* and RankSpec, said of this representation.                              *)
(***************************************************************************)
EXTENDS Wide

VARIABLES
    len, g, ex,
    pos,        \* cursor, of a bit buffer
    w, eb,      \* block and element width (eb = 1: bits)
    ev          \* what was observed: [p, x]

farVars == <<len, g, ex, pos, w, eb>>

Done(x) == ev' = [p |-> 0, x |-> x]
Same    == UNCHANGED farVars
Refuse  == ev' = [p |-> 1, x |-> <<>>] /\ Same
Fail    == ev' = [p |-> 2, x |-> <<>>] /\ Same
Look(ok, x) == IF ok THEN Done(x) /\ Same ELSE Refuse

FBit(p) == IF p \in ex THEN 1 - g ELSE g
FSpan(s, c) == [i \in 1..c |-> FBit(WAdd(s, WNat(i - 1)))] \o <<>>
\* The exceptions once the bits at s, s+1, ... are those of v
FPut(s, v) ==
    LET at(i) == WAdd(s, WNat(i - 1))
        here == {at(i) : i \in 1..Len(v)}
    IN  (ex \ here) \cup {at(i) : i \in {j \in 1..Len(v) : v[j] # g}}

InF(p, n) == WLess(p, n)
SpanIn(s, c, n) == WLeq(WAdd(s, c), n)      \* c wide

IsBlocks(k, n) == WLeq(n, WMulSmall(k, w)) /\ WLess(WMulSmall(k, w), WAdd(n, WNat(w)))
BlockIn(k, n) == WLess(WMulSmall(k, w), n)
BlockBits(k, n) == LET s == WMulSmall(k, w) IN IF WLeq(WAdd(s, WNat(w)), n) THEN w ELSE WVal(WSub(n, s))

Make(n, bit, except, width, e) ==
    len' = n /\ g' = bit /\ ex' = except /\ w' = width /\ eb' = e /\ pos' = <<>> /\ Done(<<>>)

(***************************************************************************)
(* A chain of windows <<start, end>>, each in the one before: <<base       *)
(* offset, length>>, or <<>> if refused.                                   *)
(***************************************************************************)
RECURSIVE Window(_, _, _, _)
Window(path, i, off, n) ==
    IF i > Len(path) THEN <<off, n>>
    ELSE IF WLess(n, path[i][2]) THEN <<>>
    ELSE Window(path, i + 1, WAdd(off, path[i][1]), WSub(path[i][2], path[i][1]))

GetBit(win, p)  == LET n == win[2] IN Look(InF(p, n), <<FBit(WAdd(win[1], p))>>)
GetBits(win, s, c) ==
    LET ok == SpanIn(s, c, win[2]) /\ WLeq(c, WNat(w))
    IN  IF ok THEN Look(TRUE, Widen(FSpan(WAdd(win[1], s), WVal(c)), w)) ELSE Refuse
GetBlock(win, k) ==
    IF BlockIn(k, win[2]) THEN Look(TRUE, FSpan(WAdd(win[1], WMulSmall(k, w)), BlockBits(k, win[2]))) ELSE Refuse
Put(s, v) == ex' = FPut(s, v) /\ UNCHANGED <<len, g, pos, w, eb>> /\ Done(<<>>)
SetBit(win, p, x) == IF InF(p, win[2]) THEN Put(WAdd(win[1], p), <<x>>) ELSE Refuse
SetBits(win, s, c, v) ==
    IF SpanIn(s, c, win[2]) /\ WLeq(c, WNat(w)) THEN Put(WAdd(win[1], s), Take(v, WVal(c))) ELSE Refuse
SetBlock(win, k, v) ==
    IF BlockIn(k, win[2]) THEN Put(WAdd(win[1], WMulSmall(k, w)), Take(v, BlockBits(k, win[2]))) ELSE Refuse
SLen(win) == Look(TRUE, <<win[2]>>)

(***************************************************************************)
(* Growing and shrinking.  What is added is written out, so not too much,  *)
(* unless it is the common bit.                                            *)
(***************************************************************************)
Grow(v) == len' = WAdd(len, WNat(Len(v))) /\ ex' = FPut(len, v) /\ UNCHANGED <<g, pos, w, eb>> /\ Done(<<>>)
Cut(n, x) == len' = n /\ ex' = {p \in ex : WLess(p, n)} /\ UNCHANGED <<g, pos, w, eb>> /\ Done(x)
Missing == LET r == WVal(WOfBits(WBits(len, 6))) % w IN IF r = 0 THEN 0 ELSE w - r   \* to the next block

PushBit(x) == Grow(<<x>>)
PopBit == IF len = <<>> THEN Look(TRUE, <<>>) ELSE LET n == WSub(len, <<1>>) IN Cut(n, <<FBit(n)>>)
PushBlock(v) == Grow(Rep(0, Missing) \o v)
AlignBlock(x) == Grow(Rep(x, Missing))
Truncate(n) == IF WLess(n, len) THEN Cut(n, <<>>) ELSE Look(TRUE, <<>>)
More(n, e) == len' = n /\ ex' = e /\ UNCHANGED <<g, pos, w, eb>> /\ Done(<<>>)
Resize(n, x) == IF WLess(n, len) THEN Cut(n, <<>>) ELSE IF x = g THEN More(n, ex) ELSE Grow(Rep(x, WVal(WSub(n, len))))

\* To k blocks; the new ones hold the common bit only, what was missing of the
\* last one is zero.  (Whole elements fit a block.)
BlockTruncate(k) == Truncate(WMulSmall(k, w))
BlockResize(k) ==
    LET n == WMulSmall(k, w) IN
    IF WLeq(n, WAdd(len, WNat(Missing))) THEN IF WLess(n, len) THEN Cut(n, <<>>) ELSE More(n, FPut(len, Rep(0, Missing)))
    ELSE More(n, FPut(len, Rep(0, Missing)))

(***************************************************************************)
(* Elements.                                                               *)
(***************************************************************************)
E0(i) == WMul(i, WNat(eb))              \* first bit of element i
ElemIn(i) == WLeq(WAdd(E0(i), WNat(eb)), len)
Elem(i) == Widen(FSpan(E0(i), eb), w)
FitsElem(v) == \A j \in eb + 1 .. Len(v) : v[j] = 0
IvGet(i) == IF ElemIn(i) THEN Look(TRUE, Elem(i)) ELSE Refuse
IvSet(i, v) == IF ElemIn(i) /\ FitsElem(v) THEN Put(E0(i), Take(v, eb)) ELSE Refuse
IvPush(v) == IF FitsElem(v) THEN Grow(Take(v, eb)) ELSE Refuse
IvPop == IF len = <<>> THEN Look(TRUE, <<>>)
         ELSE LET n == WSub(len, WNat(eb)) IN Cut(n, <<Widen(FSpan(n, eb), w)>>)
\* Only a little longer
IvResize(n, v) ==
    IF WLess(E0(n), len) THEN Cut(E0(n), <<>>)
    ELSE IF FitsElem(v) /\ \A j \in 1..eb : v[j] = g THEN More(E0(n), ex)
    ELSE IF FitsElem(v) THEN Grow([i \in 1..WVal(WSub(E0(n), len)) |-> v[((i - 1) % eb) + 1]] \o <<>>) ELSE Refuse
IvTruncate(n) == IF WLess(E0(n), len) THEN Cut(E0(n), <<>>) ELSE Look(TRUE, <<>>)
\* get_random(offset, width, index) and set_random; used well inside only
GetRandom(o, c, i) == Look(TRUE, Widen(FSpan(WAdd(o, WMul(i, c)), WVal(c)), w))
SetRandom(o, c, i, v) == Put(WAdd(o, WMul(i, c)), Take(v, WVal(c)))

(***************************************************************************)
(* A copy of the store is changed and compared with it: x says whether     *)
(* they are equal, which is smaller, whether they hash alike.              *)
(***************************************************************************)
Changed(d) ==
    CASE d[1] = "same" -> <<len, ex>>
      [] d[1] = "twice" -> <<len, ex>>      \* changed and changed back
      [] d[1] = "flip" -> <<len, (ex \ {d[2]}) \cup ({d[2]} \ ex)>>
      [] d[1] = "cut" -> LET n == E0(d[2]) IN <<n, {p \in ex : WLess(p, n)}>>
      \* an element is pushed whose first bit is given, the others being zero
      [] d[1] = "push" -> <<WAdd(len, WNat(eb)), FPut(len, <<IF d[2] = <<>> THEN 0 ELSE 1>> \o Rep(0, eb - 1))>>
Compare(d, x) ==
    /\ Done(x) /\ Same
    /\ Len(x) = 6 /\ \A i \in 1..6 : x[i] \in {0, 1}
    /\ LET eq == IF Changed(d) = <<len, ex>> THEN 1 ELSE 0
       IN  /\ x[1] = eq /\ x[2] = 1 - eq            \* ==, !=
           /\ x[3] + x[4] = 1 - eq                  \* one is smaller
           /\ x[5] = 1                              \* the other way round it is larger
           /\ eq = 1 => x[6] = 1                    \* hashes

(***************************************************************************)
(* Capacity: room is asked for, then elements of bits g are put into it.   *)
(* x = <<capacity, blocks of it, those before, elements put, allocations   *)
(* made while putting them, blocks of capacity then, blocks in use before>>*)
(***************************************************************************)
Room(r, x) ==
    LET k == r[1]  n == r[2]
        from == IF k \in {"with", "bwith", "clear"} THEN <<>> ELSE len
        cap == x[1]  blocks == x[2]  before == x[3]  put == x[4]
        now == WAdd(from, E0(put))
        promised == WMulSmall(WAdd(x[7], n), w)         \* if blocks are asked for
    IN  /\ Done(x)
        /\ Len(x) = 7
        /\ IsBlocks(x[7], from)
        /\ WLeq(E0(cap), WMulSmall(blocks, w)) /\ WLess(WMulSmall(blocks, w), E0(WAdd(cap, <<1>>)))
        /\ WLeq(now, E0(cap)) /\ x[5] = <<>> /\ x[6] = blocks
        /\ k \in {"reserve", "exact", "with"} => put = n
        /\ k \in {"breserve", "bexact", "bwith"} => WLeq(now, promised) /\ WLess(promised, WAdd(now, WNat(eb)))
        /\ k = "below" => put = n \/ (WLess(put, n) /\ now = E0(cap))
        /\ k \in {"shrink", "clear"} => put = <<>>
        /\ k \in {"reserve", "exact", "breserve", "bexact"} => WLeq(before, blocks)
        /\ k \in {"clear", "below"} => blocks = before
        /\ k = "shrink" => IsBlocks(blocks, len)
        /\ len' = now /\ ex' = (IF from = <<>> THEN {} ELSE ex) /\ UNCHANGED <<g, pos, w, eb>>

(***************************************************************************)
(* Iterators: the elements lo .. hi-1 remain.                              *)
(***************************************************************************)
Item(i, raw) == IF raw THEN <<FBit(i)>> ELSE Elem(i)     \* raw: the items are bits
RECURSIVE Walk(_, _, _, _, _)
Walk(ms, j, lo, hi, raw) ==      \* the answers to moves j, j+1, ...
    IF j > Len(ms) THEN <<>>
    ELSE LET m == ms[j]  left == WSub(hi, lo) IN
         CASE m[1] = "n" -> IF WLess(m[2], left)
                            THEN LET i == WAdd(lo, m[2]) IN <<Item(i, raw)>> \o Walk(ms, j + 1, WAdd(i, <<1>>), hi, raw)
                            ELSE << <<>> >> \o Walk(ms, j + 1, hi, hi, raw)
           [] m[1] = "b" -> IF WLess(m[2], left)
                            THEN LET i == WSub(WSub(hi, m[2]), <<1>>) IN <<Item(i, raw)>> \o Walk(ms, j + 1, lo, i, raw)
                            ELSE << <<>> >> \o Walk(ms, j + 1, lo, lo, raw)
           [] m[1] \in {"len", "count", "hint"} -> <<left>> \o Walk(ms, j + 1, lo, hi, raw)
           [] m[1] = "last" -> <<IF left = <<>> THEN <<>> ELSE Item(WSub(hi, <<1>>), raw)>> \o Walk(ms, j + 1, lo, hi, raw)
Iterate(ms, n, raw) == Look(TRUE, Walk(ms, 1, <<>>, n, raw))

(***************************************************************************)
(* Rank and select.                                                        *)
(***************************************************************************)
ExUpTo(p) == WNat(Cardinality({q \in ex : WLeq(q, p)}))
CountG(p) == WSub(WAdd(p, <<1>>), ExUpTo(p))        \* of g's, up to and including p
\* A user's structure may know more symbols than 0 and 1; none of them stands anywhere
Rank(p, x) == IF x = g THEN CountG(p) ELSE IF x = 1 - g THEN ExUpTo(p) ELSE <<>>
AskRank(p, x) == IF InF(p, len) THEN Look(TRUE, <<Rank(p, x)>>) ELSE Refuse
All(x) == IF len = <<>> THEN <<>> ELSE Rank(WSub(len, <<1>>), x)
\* x is what was answered
AskSelect(k, bit, x) ==
    /\ Done(x) /\ Same
    /\ IF WLess(k, All(bit))
       THEN Len(x) = 1 /\ InF(x[1], len) /\ FBit(x[1]) = bit /\ Rank(x[1], bit) = WAdd(k, <<1>>)
       ELSE x = <<>>

(***************************************************************************)
(* A bit buffer.                                                           *)
(***************************************************************************)
Seek(p) == IF WLeq(p, len) THEN pos' = p /\ UNCHANGED <<len, g, ex, w, eb>> /\ Done(<<>>) ELSE Fail
Read == IF WLess(pos, len) THEN pos' = WAdd(pos, <<1>>) /\ UNCHANGED <<len, g, ex, w, eb>> /\ Done(<<FBit(pos)>>)
        ELSE Look(TRUE, <<>>)
Write(x) ==
    /\ pos' = WAdd(pos, <<1>>)
    /\ ex' = FPut(pos, <<x>>)
    /\ len' = IF WLess(pos, len) THEN len ELSE WAdd(len, <<1>>)
    /\ UNCHANGED <<g, w, eb>> /\ Done(<<>>)
\* The low n bits of v at the cursor, or n bits read there into 64
Turned(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] \o <<>>
WInt(n, be, v) ==
    /\ pos' = WAdd(pos, WNat(n))
    /\ ex' = FPut(pos, IF be THEN Turned(Take(v, n)) ELSE Take(v, n))
    /\ len' = IF WLess(WAdd(pos, WNat(n)), len) THEN len ELSE WAdd(pos, WNat(n))
    /\ UNCHANGED <<g, w, eb>> /\ Done(<<>>)
RInt(n, be, after) ==
    IF WLeq(WAdd(pos, WNat(n)), len)
    THEN /\ pos' = WAdd(pos, WNat(n)) /\ UNCHANGED <<len, g, ex, w, eb>>
         /\ Done(Widen(IF be THEN Turned(FSpan(pos, n)) ELSE FSpan(pos, n), 64))
    ELSE IF pos = len THEN Same /\ ev' = [p |-> 3, x |-> <<>>]
    ELSE pos' = after /\ WLeq(pos, after) /\ WLeq(after, len) /\ UNCHANGED <<len, g, ex, w, eb>> /\ ev' = [p |-> 2, x |-> <<>>]
=============================================================================
