------------------------------- MODULE RankMC -------------------------------
(***************************************************************************)
(* 1. RankSpec counts by segments.  Is that counting?  TLC takes every     *)
(*    sequence of up to two segments with patterns of up to MaxPat bits    *)
(*    repeated up to MaxCnt times, and every window on it, and compares    *)
(*    with Rank1, Rank0 and Select of WrapSpec on the written-out          *)
(*    sequence (Segments).                                                 *)
(*                                                                         *)
(* 2. The designs of the structures, for blocks of 1 to 3 bits: Jacobson's *)
(*    two-level directory and Rank9's, with their packed counters (wide    *)
(*    enough: Fit), answer Rank1 (Jacobson, Nine); binary search over rank *)
(*    finds Select without ever asking outside its interval (Search).      *)
(***************************************************************************)
EXTENDS RankSpec, TLC

CONSTANTS MaxPat, MaxCnt, MaxLen

VARIABLES flat      \* the written-out sequence (of the base)

mcVars == <<segs, win, w, flat>>

Pats == UNION {BitSeqs(k) : k \in 1..MaxPat}
Segs1 == {<<p, c>> : p \in Pats, c \in 1..MaxCnt}

Init ==
    \/ \* all segmented sequences
       /\ \E g \in {<<>>} \cup {<<s>> : s \in Segs1} \cup {<<s, t>> : s \in Segs1, t \in Segs1} :
            /\ segs = Index(g)
            /\ flat = (IF g = <<>> THEN <<>> ELSE RepSeq(g[1][1], g[1][2])
                       \o (IF Len(g) < 2 THEN <<>> ELSE RepSeq(g[2][1], g[2][2])))
       /\ win = <<0, Len(flat)>>
       /\ w = 0
    \/ \* the empty sequence, to grow to all plain sequences
       /\ segs = <<>> /\ flat = <<>> /\ win = <<0, 0>> /\ w \in 1..3

Next ==
    \/ /\ w > 0 /\ Len(flat) < MaxLen
       /\ \E x \in Bit : flat' = Append(flat, x)
       /\ segs' = Index(<< <<flat', 1>> >>)
       /\ win' = <<0, Len(flat')>>
       /\ UNCHANGED w
    \/ \* windows, one bit less at either end at a time
       /\ w = 0 /\ win[2] > 0
       /\ win' \in {<<win[1] + 1, win[2] - 1>>, <<win[1], win[2] - 1>>}
       /\ UNCHANGED <<segs, w, flat>>

Spec == Init /\ [][Next]_mcVars

Shown == Span(flat, win[1], win[2])

Segments ==
    /\ Total = Len(flat)
    /\ SpanIn(0, N) = Shown
    /\ \A p \in 0..N - 1 : /\ RankIn(p, 1) = Rank1(Shown, p)
                           /\ RankIn(p, 0) = Rank0(Shown, p)
    /\ \A k \in 0..N : /\ SelIn(k, 1) = Select(Shown, k, 1)
                       /\ SelIn(k, 0) = Select(Shown, k, 0)
    /\ AllRanks([p \in 1..N |-> Rank1(Shown, p - 1)], 1)
    /\ AllSelects([k \in 1..CountOf(0) |-> Select(Shown, k - 1, 0)[1]], 0)

\* Select by its definition: inverse to rank, and complete
Inverse ==
    \A x \in Bit :
      /\ \A k \in 0..N : LET s == Select(Shown, k, x) IN
           IF s = <<>> THEN k >= CountIn(Shown, 0, N, x)
           ELSE /\ BitAt(Shown, s[1]) = x
                /\ CountIn(Shown, 0, s[1] + 1, x) = k + 1
      /\ \A p \in 0..N - 1 : BitAt(Shown, p) = x =>
           Select(Shown, CountIn(Shown, 0, p, x), x) = <<p>>

(***************************************************************************)
(* Jacobson.                                                               *)
(***************************************************************************)
RECURSIVE CeilLg(_)
CeilLg(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLg((n + 1) \div 2)

PlainN == Len(flat)
NBlk   == CeilDiv(PlainN, w)
Per    == Max(1, CeilDiv(CeilLg(PlainN) * CeilLg(PlainN), w))
LargeMeta == Max(1, CeilLg(PlainN + 1))
SmallMeta == CeilLg(w * Per + 1)
Before(k) == OnesUpTo(flat, Min(PlainN, k * w))     \* ones before block k
Large  == [j \in 1..CeilDiv(NBlk, Per) + 1 |-> Before(Min(NBlk, (j - 1) * Per))]
Small  == [k \in 1..NBlk + 1 |-> Before(k - 1) -
              (IF NBlk = 0 THEN 0 ELSE Before((Min(k - 1, NBlk - 1) \div Per) * Per))]
InBlock(p) == OnesIn(flat, (p \div w) * w, (p % w) + 1)

Fit == w > 0 =>
    /\ \A j \in DOMAIN Large : Large[j] < 2^LargeMeta
    /\ \A k \in DOMAIN Small : Small[k] < 2^SmallMeta
Jacobson == w > 0 =>
    \A p \in 0..PlainN - 1 :
        Large[p \div (w * Per) + 1] + Small[p \div w + 1] + InBlock(p) = Rank1(flat, p)

(***************************************************************************)
(* Rank9, with four words to a group: a count and three relative counts.   *)
(***************************************************************************)
Words == 4
Level1 == [g \in 1..CeilDiv(NBlk, Words) + 1 |-> Before((g - 1) * Words)]
Level2(g, t) == IF t = 0 THEN 0 ELSE Before((g - 1) * Words + t) - Before((g - 1) * Words)
CounterBits == CeilLg(Words * w)
Nine == w > 0 =>
    /\ \A g \in DOMAIN Level1, t \in 0..Words - 1 : Level2(g, t) < 2^CounterBits
    /\ \A p \in 0..PlainN - 1 :
         LET k == p \div w
         IN  Level1[k \div Words + 1] + Level2(k \div Words + 1, (k % Words)) + InBlock(p)
               = Rank1(flat, p)

(***************************************************************************)
(* Select by searching for the smallest position of rank >= k + 1.         *)
(***************************************************************************)
R(p, x) == IF p \in 0..PlainN - 1 THEN CountIn(flat, 0, p + 1, x)
           ELSE Assert(FALSE, "asked outside")
RECURSIVE Loop(_, _, _, _)
Loop(start, limit, v, x) ==
    IF start >= limit THEN <<>>
    ELSE LET mid == (start + limit) \div 2
         IN  IF R(mid, x) >= v
             THEN IF R(mid - 1, x) < v THEN <<mid>> ELSE Loop(start, mid, v, x)
             ELSE Loop(mid + 1, limit, v, x)
Search == w > 0 =>
    \A x \in Bit, k \in 0..PlainN + 1 :
        (IF PlainN = 0 THEN <<>>
         ELSE IF R(0, x) >= k + 1 THEN <<0>>
         ELSE Loop(1, PlainN, k + 1, x)) = Select(flat, k, x)
=============================================================================
