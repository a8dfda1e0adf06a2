------------------------------- MODULE GenEq -------------------------------
(***************************************************************************)
(* The same contents by every route, and its near misses, all compared     *)
(* with one another.                                                       *)
(*                                                                         *)
(* A route is a way of making a vector hold c: element by element; cut out *)
(* of something longer made of ones; grown and written; popped back; block *)
(* by block and truncated; cleared and refilled.  For all contents of a    *)
(* few bits, and some at the lengths where blocks begin and end.           *)
(***************************************************************************)
EXTENDS GenLib

VARIABLE i

O(op, r, a) == [op |-> op, r |-> r, a |-> a, path |-> <<>>, big |-> 0, hd |-> 0]
Done(ops) == Append(Front(ops), [Last(ops) EXCEPT !.hd = 1])
Bit1(c, k) == c[k]

BlocksOf(c, w, fill) ==
    [k \in 1..BlockLen(Len(c), w) |-> LET part == SubSeq(c, w * (k - 1) + 1, Min(w * k, Len(c))) IN part \o Rep(fill, w - Len(part)) \o <<>>] \o <<>>

BvRoutes(c, w, r) ==
    LET n == Len(c)
        sets(x) == FlatMap(LAMBDA k : IF c[k] = x THEN <<O("set_bit", r, <<k - 1, x>>)>> ELSE <<>>, Upto(n))
    IN  << <<O("bv_new", r, <<w>>)>> \o Each(LAMBDA k : O("push_bit", r, <<c[k]>>), Upto(n)),
           <<O("bv_fill", r, <<w, n + 2 * w + 3, 1>>), O("truncate", r, <<n>>)>> \o sets(0),
           <<O("bv_bfill", r, <<w, 3, Ones1(w)>>), O("truncate", r, <<n \div 2>>), O("resize", r, <<n, 0>>)>> \o Each(LAMBDA k : O("set_bit", r, <<k - 1, c[k]>>), Upto(n)),
           <<O("bv_new", r, <<w>>)>> \o Each(LAMBDA b : O("push_block", r, <<b>>), BlocksOf(c, w, 1)) \o <<O("truncate", r, <<n>>)>>,
           <<O("bv_fill", r, <<w, n, 1>>)>> \o sets(0) \o <<O("push_bit", r, <<1>>), O("align_block", r, <<1>>)>>
               \o Each(LAMBDA k : O("pop_bit", r, <<>>), Upto(BlockLen(n + 1, w) * w - n)),
           <<O("bv_bfill", r, <<w, 2, Ones1(w)>>), O("clear", r, <<>>), O("resize", r, <<n, 1>>)>>
               \o Each(LAMBDA k : O("set_block", r, <<k - 1, BlocksOf(c, w, 1)[k]>>), Upto(BlockLen(n, w))),
           <<O("bv_fill", r, <<w, w + 1, 1>>), O("block_resize", r, <<BlockLen(n, w) + 1, Ones1(w)>>), O("block_truncate", r, <<BlockLen(n, w)>>), O("truncate", r, <<n>>), O("shrink_to_fit", r, <<>>)>>
               \o FlatMap(LAMBDA k : <<O("set_bits", r, <<k - 1, 1, <<c[k]>> \o Ones1(w - 1)>>)>>, Upto(n)) >>

IvRoutes(c, w, eb, r) ==    \* c a sequence of elements, each eb bits widened to w
    LET n == Len(c)
        ones == Ones1(eb) \o Zeros(w - eb)
        set == Each(LAMBDA k : O("set", r, <<k - 1, c[k]>>), Upto(n))
    IN  << <<O("iv_new", r, <<w, eb>>)>> \o Each(LAMBDA k : O("push", r, <<c[k]>>), Upto(n)),
           <<O("iv_fill", r, <<w, eb, n + w, ones>>), O("truncate", r, <<n>>)>> \o set,
           <<O("iv_fill", r, <<w, eb, n, ones>>)>> \o set \o <<O("push", r, <<ones>>), O("push", r, <<ones>>), O("pop", r, <<>>), O("pop", r, <<>>)>>,
           <<O("iv_bfill", r, <<w, eb, 2, Ones1(w)>>), O("clear", r, <<>>), O("iv_resize", r, <<n, ones>>)>> \o set,
           <<O("iv_fill", r, <<w, eb, n + 1, ones>>), O("block_resize", r, <<BlockLen(n * eb, w) + 2, Ones1(w)>>), O("block_truncate", r, <<BlockLen(n * eb, w)>>), O("iv_resize", r, <<n, ones>>)>> \o set >>

\* Registers 1..5 hold c by five routes; 6, 7, 8 its neighbours
Cmps == Each(LAMBDA p : O("cmp", 1, p),
    << <<1, 2, 3>>, <<3, 4, 5>>, <<5, 1, 4>>, <<2, 4, 1>>, <<5, 2, 3>>, <<1, 6, 7>>, <<2, 7, 8>>, <<3, 8, 6>>, <<6, 7, 8>>, <<4, 6, 8>>, <<5, 7, 6>> >>)
\* A clone changed is no longer the original; the original is unchanged
After(op) == <<O("clone", 1, <<8>>), [op EXCEPT !.hd = 1], O("cmp", 1, <<1, 8, 2>>), O("slen", 1, <<>>), O("clone", 2, <<8>>), O("cmp", 1, <<1, 8, 2>>)>>

Near(c, flip(_)) ==
    LET n == Len(c)
    IN  IF n = 0 THEN <<c, c, c>> ELSE <<[c EXCEPT ![n] = flip(c[n])], Front(c), [c EXCEPT ![1] = flip(c[1])]>>

BvGroup(c, w, x) ==
    LET nb == Near(c, LAMBDA b : 1 - b)
        Pick(s, r, y) == BvRoutes(s, w, r)[((x + y) % 7) + 1]
    IN  FlatMap(LAMBDA r : Done(Pick(c, r, r)), Upto(5))
        \o Done(Pick(IF Len(c) = 0 THEN <<0>> ELSE nb[1], 6, 6)) \o Done(Pick(IF Len(c) = 0 THEN <<1>> ELSE nb[2], 7, 1)) \o Done(Pick(IF Len(c) = 0 THEN <<0, 0>> ELSE IF x % 2 = 0 THEN nb[3] ELSE Append(c, 0), 8, 3))
        \o Cmps \o After(O("push_bit", 8, <<0>>)) \o (IF Len(c) > 0 THEN After(O("set_bit", 8, <<Len(c) - 1, 1 - c[Len(c)]>>)) ELSE <<>>)

IvGroup(c, w, eb, x) ==
    LET flip(e) == [e EXCEPT ![eb] = 1 - e[eb]]
        nb == Near(c, flip)
        zero == Zeros(w)
        Pick(s, r, y) == IvRoutes(s, w, eb, r)[((x + y) % 5) + 1]
    IN  FlatMap(LAMBDA r : Done(Pick(c, r, r)), Upto(5))
        \o Done(Pick(IF Len(c) = 0 THEN <<zero>> ELSE nb[1], 6, 6)) \o Done(Pick(IF Len(c) = 0 THEN <<flip(zero)>> ELSE nb[2], 7, 1)) \o Done(Pick(IF x % 2 = 0 THEN nb[3] ELSE Append(c, zero), 8, 3))
        \o Cmps \o After(O("push", 8, <<zero>>)) \o (IF Len(c) > 0 THEN After(O("set", 8, <<Len(c) - 1, flip(c[Len(c)])>>)) ELSE <<>>)

Short(n) == Words(<<0, 1>>, n)
BvContents(w) ==
    (IF w = 8 THEN << <<>> >> \o FlatMap(LAMBDA n : Short(n), IF Deep THEN <<1, 2, 3, 4, 5, 6>> ELSE <<1, 2, 3>>) ELSE << <<>> >>)
    \o FlatMap(LAMBDA n : <<Ones1(n), Zeros(n), Irregular(n, 1), Irregular(n, 2)>>,
               IF w = 8 THEN <<7, 8, 9, 15, 16, 17, 24, 25>> ELSE IF Deep \/ w = 64 THEN <<w - 1, w, w + 1, 2 * w>> ELSE <<w, w + 1>>)

ElemSeq(n, w, eb, k) == [j \in 1..n |-> Irregular(eb, j + k) \o Zeros(w - eb) \o <<>>] \o <<>>
IvContents(w, eb) == FlatMap(LAMBDA n : <<ElemSeq(n, w, eb, 0), [j \in 1..n |-> Ones1(eb) \o Zeros(w - eb)] \o <<>>, [j \in 1..n |-> Zeros(w)] \o <<>> >>,
                             Sorted({0, 1, 2, w \div eb, w \div eb + 1, 2 * (w \div eb) + 1}))

Groups ==
    FlatMap(LAMBDA w : LET cs == BvContents(w) IN [k \in 1..Len(cs) |-> BvGroup(cs[k], w, k)] \o <<>>, <<8, 16, 32, 64>>)
    \o FlatMap(LAMBDA w : FlatMap(LAMBDA eb : LET cs == IvContents(w, eb) IN [k \in 1..Len(cs) |-> IvGroup(cs[k], w, eb, k)] \o <<>>,
                                  IF Deep \/ w = 8 THEN Sorted({1, 3, w - 1, w, (3 * w) \div 4}) ELSE <<7, w>>), <<8, 16, 64>>)

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Groups)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
