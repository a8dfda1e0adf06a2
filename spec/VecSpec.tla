------------------------------ MODULE VecSpec ------------------------------
(***************************************************************************)
(* The abstract behaviour of every bit store of the library: bit vectors,  *)
(* integer vectors, primitive integers, slices and vectors of blocks,      *)
(* vectors of booleans and user types; windows (bit slices) on them; and   *)
(* iterators over them.                                                    *)
(*                                                                         *)
(* State: a file of registers, each holding one store - its kind, its      *)
(* block width, its element width and ONE BIT SEQUENCE - and a set of      *)
(* iterators, each the half-open interval of elements still to come.       *)
(* Every public operation is one action.  An operation the library has to  *)
(* refuse is a stuttering step on that state whose observation says so.    *)
(*                                                                         *)
(* The variable ev is the observation of the last step (what the caller    *)
(* saw).  It is history, not state: model checking hides it with a VIEW,   *)
(* and trace validation compares it with what the real code did.           *)
(***************************************************************************)
EXTENDS Bits, Integers

VARIABLES
    regs,   \* register number -> [k, w, eb, b]
    its,    \* iterator number -> [r, lo, hi]
    ev      \* [op, p, x]: last operation, 1 if refused, result

vecVars == <<regs, its, ev>>

\* Kinds: "bv" BitVector, "iv" IntVector (the owned vectors, whose unused
\* storage bits are promised to be zero), "prim", "blocks", "bools", "obits"
\* (user type with only the bit-level methods), "oblk" (user type with only
\* the block-level methods, junk in the unused bits).
NoStore == [k |-> "none", w |-> 8, eb |-> 1, b |-> <<>>]
NoIter  == [r |-> 0, lo |-> 0, hi |-> 0]

Obs(op, ok, x) == [op |-> op, p |-> IF ok THEN 0 ELSE 1, x |-> x]

(* A step on register r: if allowed its bits become b and the caller sees  *)
(* x, otherwise nothing changes and the caller sees a refusal.             *)
Step(op, r, ok, b, x) ==
    /\ ev'   = IF ok THEN Obs(op, TRUE, x) ELSE Obs(op, FALSE, <<>>)
    /\ regs' = IF ok THEN [regs EXCEPT ![r].b = b] ELSE regs
    /\ UNCHANGED its

\* A step that only observes
Look(op, ok, x) ==
    /\ ev' = IF ok THEN Obs(op, TRUE, x) ELSE Obs(op, FALSE, <<>>)
    /\ UNCHANGED <<regs, its>>

\* A step that creates a store in register r
Make(op, r, ok, st) ==
    /\ ev'   = Obs(op, ok, <<>>)
    /\ regs' = IF ok THEN [regs EXCEPT ![r] = st] ELSE regs
    /\ its'  = [i \in DOMAIN its |-> IF its[i].r = r THEN NoIter ELSE its[i]]

B(r)  == regs[r].b
W(r)  == regs[r].w
EB(r) == regs[r].eb
N(r)  == Len(regs[r].b)             \* length in bits
L(r)  == N(r) \div EB(r)            \* length in elements
NB(r) == BlockLen(N(r), W(r))       \* length in blocks

Store(k, w, eb, b) == [k |-> k, w |-> w, eb |-> eb, b |-> b]

(***************************************************************************)
(* Windows.  A path is a sequence of ranges, each applied to the result of *)
(* the previous one; a range is <<form, s, e>> with form 0 "..", 1 "..e",  *)
(* 2 "s..", 3 "s..e".  The empty path is the whole store.                  *)
(***************************************************************************)
RECURSIVE WindowFrom(_, _, _, _)
WindowFrom(path, i, off, len) ==
    IF i > Len(path) THEN [ok |-> TRUE, off |-> off, len |-> len]
    ELSE LET f == path[i][1]
             s == IF f \in {2, 3} THEN path[i][2] ELSE 0
             e == IF f \in {1, 3} THEN path[i][3] ELSE len
         IN  IF e > len \/ s > e
             THEN [ok |-> FALSE, off |-> 0, len |-> 0]
             ELSE WindowFrom(path, i + 1, off + s, e - s)
Window(path, n) == WindowFrom(path, 1, 0, n)

\* The sequence a window shows
Seen(b, win) == Span(b, win.off, win.len)

(***************************************************************************)
(* Reading a bit, a span, a block; writing them.  All through a path, so   *)
(* the same actions describe a store and every slice of it.                *)
(***************************************************************************)
SLen(r, path) ==
    LET win == Window(path, N(r))
    IN  Look("slen", win.ok, <<win.len, BlockLen(win.len, W(r))>>)

GetBit(r, path, i) ==
    LET win == Window(path, N(r))
        ok  == win.ok /\ i < win.len
    IN  Look("get_bit", ok, IF ok THEN <<BitAt(B(r), win.off + i)>> ELSE <<>>)

SetBit(r, path, i, x) ==
    LET win == Window(path, N(r))
        ok  == win.ok /\ i < win.len
    IN  Step("set_bit", r, ok,
             IF ok THEN PutBit(B(r), win.off + i, x) ELSE B(r), <<>>)

\* Spans are at most one block wide; the value is zero-extended to a block.
GetBits(r, path, s, c) ==
    LET win == Window(path, N(r))
        ok  == win.ok /\ c <= W(r) /\ Fits(s, c, win.len)
    IN  Look("get_bits", ok,
             IF ok THEN Widen(Span(B(r), win.off + s, c), W(r)) ELSE <<>>)

SetBits(r, path, s, c, v) ==
    LET win == Window(path, N(r))
        ok  == win.ok /\ c <= W(r) /\ Fits(s, c, win.len)
    IN  Step("set_bits", r, ok,
             IF ok THEN PutSpan(B(r), win.off + s, c, v) ELSE B(r), <<>>)

(* Block k of a window is its k-th run of W bits; the last one may be      *)
(* shorter.  The observation has just the bits in the window: what a store *)
(* shows beyond its end is its own affair (see Clean below).               *)
GetBlock(r, path, k) ==
    LET win == Window(path, N(r))
        ok  == win.ok /\ k < BlockLen(win.len, W(r))
    IN  Look("get_block", ok,
             IF ok THEN Span(B(r), win.off + k * W(r),
                             BlockSize(win.len, W(r), k)) ELSE <<>>)

SetBlock(r, path, k, v) ==
    LET win == Window(path, N(r))
        ok  == win.ok /\ k < BlockLen(win.len, W(r))
    IN  Step("set_block", r, ok,
             IF ok THEN PutSpan(B(r), win.off + k * W(r),
                                BlockSize(win.len, W(r), k), v) ELSE B(r), <<>>)

(***************************************************************************)
(* Growing and shrinking by bits and blocks (BitVecPush, BitVector).       *)
(***************************************************************************)
PushBit(r, x) == Step("push_bit", r, TRUE, Append(B(r), x), <<>>)

PopBit(r) ==
    IF N(r) = 0 THEN Look("pop_bit", TRUE, <<>>)
    ELSE Step("pop_bit", r, TRUE, Take(B(r), N(r) - 1), <<B(r)[N(r)]>>)

PushBlock(r, v) == Step("push_block", r, TRUE, Pad(B(r), W(r)) \o v, <<>>)

AlignBlock(r, x) ==
    Step("align_block", r, TRUE, B(r) \o Rep(x, NB(r) * W(r) - N(r)), <<>>)

\* nb blocks of storage hold as many whole elements as fit
Elements(storage, w, eb) == Take(storage, ((Len(storage) \div eb) * eb))

Truncate(r, n) ==       \* n in elements
    Step("truncate", r, TRUE, IF n < L(r) THEN Take(B(r), n * EB(r)) ELSE B(r), <<>>)

BlockTruncate(r, nb) ==
    Step("block_truncate", r, TRUE,
         IF nb < NB(r)
         THEN Elements(Take(Pad(B(r), W(r)), nb * W(r)), W(r), EB(r))
         ELSE B(r), <<>>)

BlockResize(r, nb, v) ==
    LET pad == Pad(B(r), W(r))
        storage == IF nb <= NB(r) THEN Take(pad, nb * W(r))
                   ELSE pad \o RepSeq(v, nb - NB(r))
    IN  Step("block_resize", r, TRUE, Elements(storage, W(r), EB(r)), <<>>)

Resize(r, n, x) ==      \* bit vectors
    Step("resize", r, TRUE,
         IF n <= N(r) THEN Take(B(r), n) ELSE B(r) \o Rep(x, n - N(r)), <<>>)

Clear(r) == Step("clear", r, TRUE, <<>>, <<>>)

(***************************************************************************)
(* Constructors.  A size that cannot be represented is logged as a refusal *)
(* to be expected: the recorder says so in big, since TLC's integers end   *)
(* at 2^31 - 1.                                                            *)
(***************************************************************************)
NewStore(r, k, w, b) == Make("st_new", r, TRUE, Store(k, w, 1, b))

BvNew(r, w)          == Make("bv_new", r, TRUE, Store("bv", w, 1, <<>>))
BvCap(r, w, big)     == Make("bv_cap", r, ~big, Store("bv", w, 1, <<>>))
BvFill(r, w, n, x, big) ==
    Make("bv_fill", r, ~big, Store("bv", w, 1, IF big THEN <<>> ELSE Rep(x, n) \o <<>>))
BvBlockFill(r, w, nb, v) ==
    Make("bv_bfill", r, TRUE, Store("bv", w, 1, RepSeq(v, nb)))

OkWidth(w, eb) == eb >= 1 /\ eb <= w

IvNew(r, w, eb) == Make("iv_new", r, OkWidth(w, eb), Store("iv", w, eb, <<>>))
IvCap(r, w, eb, big) ==
    Make("iv_cap", r, OkWidth(w, eb) /\ ~big, Store("iv", w, eb, <<>>))
IvFill(r, w, eb, n, v, big) ==
    LET ok == OkWidth(w, eb) /\ ~big /\ FitsIn(v, eb)
    IN  Make("iv_fill", r, ok,
             Store("iv", w, eb, IF ok THEN RepSeq(Take(v, eb), n) ELSE <<>>))
IvBlockFill(r, w, eb, nb, v) ==
    LET ok == OkWidth(w, eb)
    IN  Make("iv_bfill", r, ok,
             Store("iv", w, eb, IF ok THEN Elements(RepSeq(v, nb), w, eb) ELSE <<>>))

\* Copying: the copy has the same contents and is from then on independent.
Clone(r, t) == Make("clone", t, TRUE, regs[r])

(***************************************************************************)
(* Integer vectors: elements of EB bits.                                   *)
(***************************************************************************)
Element(r, i) == Span(B(r), i * EB(r), EB(r))

IvGet(r, i) ==
    Look("get", i < L(r), IF i < L(r) THEN Widen(Element(r, i), W(r)) ELSE <<>>)

IvSet(r, i, v) ==
    LET ok == i < L(r) /\ FitsIn(v, EB(r))
    IN  Step("set", r, ok, IF ok THEN PutSpan(B(r), i * EB(r), EB(r), v) ELSE B(r), <<>>)

IvPush(r, v) ==
    LET ok == FitsIn(v, EB(r))
    IN  Step("push", r, ok, IF ok THEN B(r) \o Take(v, EB(r)) ELSE B(r), <<>>)

IvPop(r) ==
    IF N(r) = 0 THEN Look("pop", TRUE, <<>>)
    ELSE Step("pop", r, TRUE, Take(B(r), N(r) - EB(r)),
              Widen(Element(r, L(r) - 1), W(r)))

\* Filling with a value too wide for the elements is refused.
IvResize(r, n, v, big) ==
    LET ok == ~big /\ FitsIn(v, EB(r))
    IN  Step("iv_resize", r, ok,
             IF ~ok THEN B(r)
             ELSE IF n <= L(r) THEN Take(B(r), n * EB(r))
             ELSE B(r) \o RepSeq(Take(v, EB(r)), n - L(r)), <<>>)

\* Element j of width c if elements of width c started at bit off
RandomOk(r, off, c, j) ==
    /\ c <= W(r)
    /\ off <= N(r)
    /\ IF c = 0 THEN TRUE
       ELSE j <= N(r) \div c /\ Fits(off + j * c, c, N(r))

GetRandom(r, off, c, j) ==
    LET ok == RandomOk(r, off, c, j)
    IN  Look("get_random", ok,
             IF ok THEN Widen(Span(B(r), off + j * c, c), W(r)) ELSE <<>>)

SetRandom(r, off, c, j, v) ==
    LET ok == RandomOk(r, off, c, j) /\ FitsIn(v, Min(c, W(r)))
    IN  Step("set_random", r, ok,
             IF ok THEN PutSpan(B(r), off + j * c, c, v) ELSE B(r), <<>>)

(***************************************************************************)
(* Other observations.                                                     *)
(***************************************************************************)
IvInfo(r) ==     \* len, is_empty, element_bits, is_block_sized, is_aligned
    Look("iv_info", TRUE,
         <<L(r), IF L(r) = 0 THEN 1 ELSE 0, EB(r),
           IF EB(r) = W(r) THEN 1 ELSE 0, IF W(r) % EB(r) = 0 THEN 1 ELSE 0>>)

FmtBinary(r) == Look("fmt_bin", TRUE, B(r))     \* digits, bit 0 first

Same(r, s) == EB(r) = EB(s) /\ B(r) = B(s)

(***************************************************************************)
(* Iterators.                                                              *)
(***************************************************************************)
Item(r, i) == IF regs[r].k = "iv" THEN Widen(Element(r, i), W(r))
              ELSE <<BitAt(B(r), i)>>

ItStep(op, i, it, x) ==
    /\ ev'   = Obs(op, TRUE, x)
    /\ its'  = [its EXCEPT ![i] = it]
    /\ UNCHANGED regs

ItNew(i, r) == ItStep("it_new", i, [r |-> r, lo |-> 0, hi |-> L(r)], <<>>)

\* Skip up to k elements from the front, then yield the next, if any.
ItNth(i, k) ==
    LET it == its[i]
        lo == IF k > it.hi - it.lo THEN it.hi ELSE it.lo + k
    IN  IF lo < it.hi
        THEN ItStep("it_nth", i, [it EXCEPT !.lo = lo + 1], Item(it.r, lo))
        ELSE ItStep("it_nth", i, [it EXCEPT !.lo = it.hi], <<>>)

ItNthBack(i, k) ==
    LET it == its[i]
        hi == IF k > it.hi - it.lo THEN it.lo ELSE it.hi - k
    IN  IF it.lo < hi
        THEN ItStep("it_nth_back", i, [it EXCEPT !.hi = hi - 1], Item(it.r, hi - 1))
        ELSE ItStep("it_nth_back", i, [it EXCEPT !.hi = it.lo], <<>>)

ItNext(i) ==
    LET it == its[i]
    IN  IF it.lo < it.hi
        THEN ItStep("it_next", i, [it EXCEPT !.lo = it.lo + 1], Item(it.r, it.lo))
        ELSE ItStep("it_next", i, it, <<>>)

ItNextBack(i) ==
    LET it == its[i]
    IN  IF it.lo < it.hi
        THEN ItStep("it_back", i, [it EXCEPT !.hi = it.hi - 1], Item(it.r, it.hi - 1))
        ELSE ItStep("it_back", i, it, <<>>)

Left(i) == its[i].hi - its[i].lo

\* len, and both ends of size_hint
ItLen(i)  == ItStep("it_len", i, its[i], <<Left(i)>>)
ItHint(i) == ItStep("it_hint", i, its[i], <<Left(i), Left(i)>>)

\* These consume the iterator.
ItCount(i) == ItStep("it_count", i, NoIter, <<Left(i)>>)
ItLast(i)  == ItStep("it_last", i, NoIter,
                     IF Left(i) = 0 THEN <<>> ELSE Item(its[i].r, its[i].hi - 1))

\* Elements lo, lo+1, ..., hi-1 one after the other; hi-1, ..., lo
RECURSIVE Items(_, _, _)
Items(r, lo, hi) ==
    IF lo >= hi THEN <<>>
    ELSE IF lo + 1 = hi THEN Item(r, lo)
    ELSE LET m == (lo + hi) \div 2 IN Items(r, lo, m) \o Items(r, m, hi)
RECURSIVE ItemsBack(_, _, _)
ItemsBack(r, lo, hi) ==
    IF lo >= hi THEN <<>>
    ELSE IF lo + 1 = hi THEN Item(r, lo)
    ELSE LET m == (lo + hi) \div 2 IN ItemsBack(r, m, hi) \o ItemsBack(r, lo, m)

\* Collect everything still to come, front to back / back to front.
ItCollect(i) == ItStep("it_collect", i, NoIter, Items(its[i].r, its[i].lo, its[i].hi))
ItRev(i)     == ItStep("it_rev", i, NoIter, ItemsBack(its[i].r, its[i].lo, its[i].hi))

ItClone(i, j) == ItStep("it_clone", j, its[i], <<>>)

(***************************************************************************)
(* The other ways the standard library has of going through an iterator.   *)
(* Some use it up, some stop early and leave the rest; k is a number and v *)
(* an item some of them take.                                              *)
(***************************************************************************)
ItemSeq(i) == [j \in 1..Left(i) |-> Item(its[i].r, its[i].lo + j - 1)] \o <<>>
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1]
             ELSE LET m == Len(s) \div 2 IN Joined(SubSeq(s, 1, m)) \o Joined(SubSeq(s, m + 1, Len(s)))
Skipped(s, k) == IF k >= Len(s) THEN <<>> ELSE Drop(s, k)
Taken(s, k) == Take(s, Min(k, Len(s)))
EveryNth(s, n) == [j \in 1 .. (Len(s) + n - 1) \div n |-> s[(j - 1) * n + 1]] \o <<>>
ItemLess(x, y) == \E j \in 1..Len(x) : x[j] < y[j] /\ \A m \in j + 1..Len(x) : x[m] = y[m]
Largest(s) == IF s = <<>> THEN <<>> ELSE CHOOSE x \in {s[j] : j \in 1..Len(s)} : \A j \in 1..Len(s) : ~ItemLess(x, s[j])
Smallest(s) == IF s = <<>> THEN <<>> ELSE CHOOSE x \in {s[j] : j \in 1..Len(s)} : \A j \in 1..Len(s) : ~ItemLess(s[j], x)
RECURSIVE SeqCmp(_, _)
SeqCmp(s, t) == IF s = <<>> THEN IF t = <<>> THEN 0 ELSE -1
                ELSE IF t = <<>> THEN 1
                ELSE IF s[1] = t[1] THEN SeqCmp(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t)))
                ELSE IF ItemLess(s[1], t[1]) THEN -1 ELSE 1
\* First place (from 1) where item v is (where = TRUE) or where another is; 0 if there is none
Place(s, v, where) ==
    LET S == {j \in 1..Len(s) : (s[j] = v) = where}
    IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A m \in S : j <= m
B01(x) == IF x THEN 1 ELSE 0

UsingUp == {"fold", "for_each", "rfold", "step", "skip", "rskip", "max", "min", "sorted", "cmp", "eq", "partition",
            "reduce", "ties", "order", "cycle", "zip", "rstep", "vec", "chain", "skip_while"}
Used(s, how, k, v) ==
    CASE how \in {"fold", "for_each"} -> Joined(s)
      [] how = "rfold"  -> Joined(Reverse(s))
      [] how = "step"   -> Joined(EveryNth(s, k + 1))
      [] how = "skip"   -> Joined(Skipped(s, k))
      [] how = "rskip"  -> Joined(Skipped(Reverse(s), k))
      [] how = "max"    -> Largest(s)
      [] how = "min"    -> Smallest(s)
      [] how = "sorted" -> <<B01(\A j \in 1 .. Len(s) - 1 : ~ItemLess(s[j + 1], s[j]))>>
      [] how = "cmp"    -> <<SeqCmp(s, Skipped(s, k))>>
      [] how = "eq"     -> <<B01(s = Skipped(s, k))>>
      \* the two items of every step, as the function got them, then the result
      [] how = "reduce" -> IF Len(s) < 2 THEN Joined(s) ELSE Joined(s) \o s[Len(s)]
      \* the last and the first of equals, the smallest and the largest the other way around
      [] how = "ties"   -> IF s = <<>> THEN <<>> ELSE s[Len(s)] \o s[1] \o Smallest(s) \o Largest(s)
      [] how = "order"  -> LET c == SeqCmp(s, Skipped(s, k))
                           IN  <<B01(c # 0), B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0), c>>
      [] how = "cycle"  -> IF s = <<>> THEN <<>> ELSE Joined([j \in 1..k |-> s[((j - 1) % Len(s)) + 1]] \o <<>>)
      [] how = "zip"    -> LET t == Skipped(s, k) IN Joined([j \in 1..Len(t) |-> s[j] \o t[j]] \o <<>>)
      [] how = "rstep"  -> Joined(EveryNth(Reverse(s), k + 1))
      [] how = "vec"    -> Joined(s)
      [] how = "chain"  -> Joined(Skipped(s, k)) \o Joined(Taken(s, k))
      [] how = "skip_while" -> LET at == Place(s, v, TRUE) IN IF at = 0 THEN <<>> ELSE Joined(Skipped(s, at - 1))
      [] how = "partition" -> LET Is(x) == x = v  Not(x) == x # v IN Joined(SelectSeq(s, Is)) \o Joined(SelectSeq(s, Not))

\* [x: what is answered, f: taken from the front, b: taken from the back]
Partly(s, how, k, v) ==
    LET n == Len(s)
        Ans(x, f, b) == [x |-> x, f |-> f, b |-> b]
        at == Place(s, v, TRUE)  other == Place(s, v, FALSE)  back == Place(Reverse(s), v, TRUE)
        Upto(j) == IF j = 0 THEN n ELSE j
    IN  CASE how = "take"      -> Ans(Joined(Taken(s, k)), Min(k, n), 0)
          [] how = "rtake"     -> Ans(Joined(Taken(Reverse(s), k)), 0, Min(k, n))
          [] how = "try_fold"  -> Ans(Joined(Taken(s, k + 1)), Min(k + 1, n), 0)
          [] how = "try_rfold" -> Ans(Joined(Taken(Reverse(s), k + 1)), 0, Min(k + 1, n))
          [] how = "all"       -> Ans(<<B01(other = 0)>>, Upto(other), 0)
          [] how = "any"       -> Ans(<<B01(at # 0)>>, Upto(at), 0)
          [] how = "find"      -> Ans(IF at = 0 THEN <<>> ELSE v, Upto(at), 0)
          [] how = "find_map"  -> Ans(IF at = 0 THEN <<>> ELSE v, Upto(at), 0)
          [] how = "take_while" -> Ans(Joined(Taken(s, Upto(at) - (IF at = 0 THEN 0 ELSE 1))), Upto(at), 0)
          [] how = "try_each"  -> Ans(Joined(Taken(s, Upto(at))), Upto(at), 0)
          [] how = "position"  -> Ans(<<at - 1>>, Upto(at), 0)
          [] how = "rfind"     -> Ans(IF back = 0 THEN <<>> ELSE v, 0, Upto(back))
          [] how = "rposition" -> Ans(<<IF back = 0 THEN -1 ELSE n - back>>, 0, Upto(back))

ItUse(i, how, k, v) ==
    LET s == ItemSeq(i)
    IN  IF how \in UsingUp THEN ItStep("it_use", i, NoIter, Used(s, how, k, v))
        ELSE LET a == Partly(s, how, k, v)
             IN  ItStep("it_use", i, [its[i] EXCEPT !.lo = @ + a.f, !.hi = @ - a.b], a.x)

(***************************************************************************)
(* What must hold in every state.                                          *)
(***************************************************************************)
TypeOK ==
    /\ \A r \in DOMAIN regs :
         /\ N(r) % EB(r) = 0
         /\ EB(r) \in 1..W(r)
         /\ \A i \in 1..N(r) : B(r)[i] \in Bit
    /\ \A i \in DOMAIN its : its[i].lo <= its[i].hi

\* The blocks an owned vector must be storing.
Clean(r) == Pad(B(r), W(r))
=============================================================================
