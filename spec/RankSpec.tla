------------------------------ MODULE RankSpec ------------------------------
(***************************************************************************)
(* A bit sequence of any size and every question about it: bits, spans,    *)
(* blocks, ranks and selects, asked directly or through any stack of       *)
(* wrappers (rank structures, select structures, buffers, user types) -    *)
(* all of which must answer exactly what the sequence answers.             *)
(*                                                                         *)
(* So that sequences of a million bits can be specified as easily as those *)
(* of ten, a sequence is given by segments: a segment is a pattern of bits *)
(* repeated count times.  RankMC checks that the operators below agree     *)
(* with counting bits one by one (Rank1, Rank0, Select of WrapSpec).       *)
(*                                                                         *)
(* The subject is a window [s, s+n) of the segmented sequence: a slice, or *)
(* all of it.                                                              *)
(***************************************************************************)
EXTENDS WrapSpec

VARIABLES
    segs,   \* sequence of [pat, cnt, off, ones, pones]: off and ones count
            \* the bits and the ones before the segment
    win,    \* <<s, n>>
    w       \* block width the subject presents

rankVars == <<segs, win, w>>

RECURSIVE IndexFrom(_, _, _, _)
IndexFrom(g, i, off, ones) ==
    IF i > Len(g) THEN <<>>
    ELSE LET p == g[i][1]  c == g[i][2]  o == Ones(p)
         IN  <<[pat |-> p, cnt |-> c, off |-> off, ones |-> ones, pones |-> o]>>
             \o IndexFrom(g, i + 1, off + Len(p) * c, ones + o * c)
Index(g) == IndexFrom(g, 1, 0, 0)

SegLen(g)  == Len(g.pat) * g.cnt
SegOnes(g) == g.pones * g.cnt

Total == IF segs = <<>> THEN 0 ELSE segs[Len(segs)].off + SegLen(segs[Len(segs)])

\* The segment holding position p of the base
RECURSIVE SegAt(_, _)
SegAt(p, i) == IF p < segs[i].off + SegLen(segs[i]) THEN i ELSE SegAt(p, i + 1)

BaseBit(p) == LET g == segs[SegAt(p, 1)]
              IN  BitAt(g.pat, (p - g.off) % Len(g.pat))

\* Ones among the first m bits of the base
BaseOnes(m) ==
    IF m = 0 THEN 0
    ELSE LET g == segs[SegAt(m - 1, 1)]
             d == m - g.off
         IN  g.ones + (d \div Len(g.pat)) * g.pones + OnesUpTo(g.pat, d % Len(g.pat))

\* Position in the base of its k-th bit equal to x (k from 0): it exists
RECURSIVE BaseSelect(_, _, _)
BaseSelect(k, x, i) ==
    LET g    == segs[i]
        here == IF x = 1 THEN g.pones ELSE Len(g.pat) - g.pones
        seen == IF x = 1 THEN g.ones ELSE g.off - g.ones
    IN  IF k < seen + here * g.cnt
        THEN LET r == k - seen
             IN  g.off + (r \div here) * Len(g.pat)
                       + SelectIn(g.pat, 0, Len(g.pat), r % here, x)[1]
        ELSE BaseSelect(k, x, i + 1)

(***************************************************************************)
(* The same, in the window.                                                *)
(***************************************************************************)
N == win[2]
BitIn(p)  == BaseBit(win[1] + p)
OnesIn_(m) == BaseOnes(win[1] + m) - BaseOnes(win[1])
RankIn(p, x) == IF x = 1 THEN OnesIn_(p + 1) ELSE p + 1 - OnesIn_(p + 1)
CountOf(x) == IF x = 1 THEN OnesIn_(N) ELSE N - OnesIn_(N)
SelIn(k, x) ==
    IF k >= CountOf(x) THEN <<>>
    ELSE LET before == IF x = 1 THEN BaseOnes(win[1]) ELSE win[1] - BaseOnes(win[1])
         IN  <<BaseSelect(k + before, x, 1) - win[1]>>
SpanIn(s, c) == [i \in 1..c |-> BitIn(s + i - 1)] \o <<>>

\* The ranks at all positions, and the positions of all the bits equal to x
AllRanks(xs, x) ==
    /\ Len(xs) = N
    /\ \A p \in 1..N :
         xs[p] = (IF p = 1 THEN 0 ELSE xs[p - 1]) + (IF BitIn(p - 1) = x THEN 1 ELSE 0)
AllSelects(xs, x) ==
    /\ Len(xs) = CountOf(x)
    /\ \A k \in 1..Len(xs) :
         /\ xs[k] < N
         /\ BitIn(xs[k]) = x
         /\ k > 1 => xs[k - 1] < xs[k]

(***************************************************************************)
(* Question q = <<name, arg1, arg2, ...>>; answer x = <<0>> \o result, or  *)
(* <<1>> if refused, <<2>> if the structure could not even be built.       *)
(***************************************************************************)
Refused == <<1>>
Answer(x) == <<0>> \o x
Result(x) == SubSeq(x, 2, Len(x))

AskOk(q, x) ==
    LET o == q[1]  i == q[2]  c == q[3]  nb == BlockLen(N, w) IN
    CASE o = "bit_len"   -> x = Answer(<<N>>)
      [] o = "block_len" -> x = Answer(<<nb>>)
      [] o = "limit"     -> x = Answer(<<N>>)
      [] o = "get_bit"   -> x = IF i < N THEN Answer(<<BitIn(i)>>) ELSE Refused
      [] o = "get_bits"  -> x = IF c <= w /\ Fits(i, c, N)
                                THEN Answer(Widen(SpanIn(i, c), w)) ELSE Refused
      [] o = "get_block" -> IF i < nb
                            THEN LET want == Answer(SpanIn(i * w, BlockSize(N, w, i)))
                                 IN  IF Len(x) = w + 1 THEN Take(x, Len(want)) = want ELSE FALSE
                            ELSE x = Refused
      [] o = "rank1"     -> x = IF i < N THEN Answer(<<RankIn(i, 1)>>) ELSE Refused
      [] o = "rank0"     -> x = IF i < N THEN Answer(<<RankIn(i, 0)>>) ELSE Refused
      [] o = "rank"      -> x = IF i < N THEN Answer(<<RankIn(i, c)>>) ELSE Refused
      [] o = "select1"   -> x = Answer(SelIn(i, 1))
      [] o = "select0"   -> x = Answer(SelIn(i, 0))
      [] o = "select"    -> x = Answer(SelIn(i, c))
      [] o = "all_rank1" -> x[1] = 0 /\ AllRanks(Result(x), 1)
      [] o = "all_rank0" -> x[1] = 0 /\ AllRanks(Result(x), 0)
      [] o = "all_sel1"  -> x[1] = 0 /\ AllSelects(Result(x), 1)
      [] o = "all_sel0"  -> x[1] = 0 /\ AllSelects(Result(x), 0)
      \* contents of what inner() lends and into_inner() returns
      [] o \in {"inner", "into"} -> x = Answer(SpanIn(0, N))
      \* the structure replaced by a copy of itself, made anew or over
      \* another structure: the questions that follow are asked of the copy
      [] o = "clone" -> x = Answer(<<>>)

\* A new subject
Make(g, s, n, width) ==
    /\ segs' = Index(g)
    /\ win'  = <<s, n>>
    /\ w'    = width

\* Asking changes nothing.
Ask(qs, xs) ==
    /\ UNCHANGED rankVars
    /\ Len(qs) = Len(xs)
    /\ \A i \in 1..Len(qs) : AskOk(qs[i], xs[i])
=============================================================================
