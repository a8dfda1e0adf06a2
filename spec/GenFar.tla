------------------------------- MODULE GenFar -------------------------------
(***************************************************************************)
(* Calls far out in very long sequences, enumerated from FarSpec: around   *)
(* the powers of two where a narrow counter would wrap around, at the ends *)
(* and at what they would be mistaken for.  GEN is a property and d (dense *)
(* stores, 2^32 and some bits, in memory), s (a user's sparse stores, of   *)
(* up to 2^64 - 1 bits) or m (all of them, of 2^9 to 2^20 bits; thorough 2^24).           *)
(***************************************************************************)
EXTENDS Wide, Integers, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

VARIABLE i

Gen == IOEnv.GEN
Prop == SubSeq(Gen, 1, 3)
Dense == SubSeq(Gen, 4, 4) = "d"
Mid == SubSeq(Gen, 4, 4) = "m"
Deep == IOEnv.TIER = "thorough"

FlatMap(Op(_), s) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])
Each(Op(_), s) == [j \in 1..Len(s) |-> Op(s[j])] \o <<>>
WSort(S) == SetToSortSeq(S, LAMBDA x, y : WLess(x, y))
Irregular(n, k) == [j \in 1..n |-> IF ((j * j + 3 * (j \div 3) + k * j + k) % 5) \in {0, 1} THEN 1 ELSE 0] \o <<>>

P32 == WPow2(32)
N(k) == WNat(k)
Plus(x, k) == WAdd(x, N(k))
\* x - k, or zero
Less(x, k) == IF WLess(x, N(k)) THEN <<>> ELSE WSub(x, N(k))
Shr(x, k) == WNorm(WOfBits(Drop(WBits(x, 64), k)))
Lg(w) == CASE w = 8 -> 3 [] w = 16 -> 4 [] w = 32 -> 5 [] w = 64 -> 6
Max64 == WMax(64)
Fit64(x) == WLeq(x, Max64)

Lens == IF Mid THEN <<N(595), N(4095), N(65537), N(131209), N(1048576)>> \o (IF Deep THEN <<N(1025), N(2200), N(8192), N(16500), N(32767), N(262144 + 150), N(4194304 + 137), N(16777216 + 90)>> ELSE <<>>)
        ELSE IF Dense THEN <<Plus(P32, 137)>> ELSE <<Plus(P32, 137), Plus(WPow2(40), 5), Plus(WPow2(63), 9), Max64>>

\* A large power of two within n bits, with room above it; a smaller one; a much smaller one
RECURSIVE LgBelow(_, _)
LgBelow(n, k) == IF k = 3 \/ WLess(Plus(WPow2(k), 80), n) THEN k ELSE LgBelow(n, k - 1)
P(n) == IF Mid THEN WPow2(LgBelow(n, 26)) ELSE P32
H(n) == IF Mid THEN WPow2(LgBelow(n, 26) - 1) ELSE WPow2(31)
Q(n) == IF Mid THEN WPow2(LgBelow(n, 26) \div 2 + 1) ELSE WPow2(16)

Around(p) == {Less(p, 2), Less(p, 1), p, Plus(p, 1), Plus(p, 70)}
Powers == IF Mid THEN {WPow2(k) : k \in {6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 20, 22, 24}} ELSE {WPow2(16), WPow2(31), P32} \cup (IF Dense THEN {} ELSE {WPow2(8), WPow2(33), WPow2(40), WPow2(48), WPow2(53), WPow2(63)})
Below(S, n) == {p \in S : WLess(p, n)}
\* Positions worth asking about
Pts(n) == WSort(Below({<<>>} \cup UNION {Around(p) : p \in Powers} \cup {Less(n, k) : k \in {1, 2, 64, 65}}, n))
Few(n) == WSort(Below({<<>>, Q(n), Less(P(n), 1), P(n), Plus(P(n), 70), WPow2(63), Less(n, 1)}, n))
\* Positions beyond the end
Out(n) == WSort({p \in {n, Plus(n, 1), WAdd(n, P(n)), WAdd(n, P32), Plus(WPow2(33), 5), Plus(WPow2(63), 5), Less(Max64, 7), Max64} : WLeq(n, p) /\ Fit64(p)})
\* What p would be mistaken for
Alias(p, n) == WSort(Below(UNION {(IF WLess(p, d) THEN {} ELSE {WSub(p, d)}) \cup {WAdd(p, d)} : d \in {P(n), Q(n), H(n)}}, n))

Ex(n) == WSort(Below({N(5), N(65541), Plus(WPow2(31), 1), Less(P(n), 1), P(n), Plus(P(n), 70), Plus(WPow2(40), 1), Plus(WPow2(63), 4), Less(n, 1)}
                     \cup (IF Mid THEN {N(513), N(4099), N(66000), N(300000)} ELSE {}), n))

Mk(k, w, us, eb, n, g) == <<[op |-> "make", k |-> k, w |-> w, us |-> us, eb |-> eb, len |-> n, g |-> g, ex |-> Ex(n)]>>
C(op, a) == <<[op |-> op, a |-> a]>>
V(path, mode, op, a) == <<[op |-> op, a |-> a, path |-> path, mode |-> mode]>>
Scan == C("scan", <<>>)

(***************************************************************************)
(* Bits, spans and blocks of any store, whole (path <<>>) or through       *)
(* windows; n bits are visible.                                            *)
(***************************************************************************)
Asks(path, mode, n, w, pts) ==
    V(path, mode, "slen", <<>>)
    \o FlatMap(LAMBDA p :
        V(path, mode, "get_bit", <<p>>)
        \o FlatMap(LAMBDA c : V(path, mode, "get_bits", <<Less(p, c), N(IF WLess(p, N(c)) THEN 1 ELSE c)>>), <<1, w - 1, w>>)
        \o V(path, mode, "get_bits", <<p, <<>> >>)
        \o V(path, mode, "get_block", <<Shr(p, Lg(w))>>), pts)
\* What must be refused
Refused(path, mode, n, w, wr) ==
    FlatMap(LAMBDA p :
        V(path, mode, "get_bit", <<p>>) \o V(path, mode, "get_bits", <<p, <<1>> >>)
        \o V(path, mode, "get_bits", <<p, N(w)>>)
        \o (IF WLess(WShl(Shr(p, Lg(w)), Lg(w)), n) THEN <<>> ELSE V(path, mode, "get_block", <<Shr(p, Lg(w))>>))
        \o V(path, mode, "get_block", <<p>>)
        \o (IF wr THEN V(path, mode, "set_bit", <<p, 1>>) \o V(path, mode, "set_bits", <<p, N(2), Irregular(w, 1)>>) \o V(path, mode, "set_block", <<p, Irregular(w, 1)>>) ELSE <<>>),
        SelectSeq(Out(n), LAMBDA p : WLeq(n, p)))
    \o V(path, mode, "get_bits", <<Less(n, 3), N(4)>>)
    \o V(path, mode, "get_bits", <<N(3), Plus(P(n), 3)>>)
    \o V(path, mode, "get_bits", <<N(3), N(w + 1)>>)
    \o V(path, mode, "get_bits", <<Less(n, 1), Max64>>)
    \o V(path, mode, "get_block", <<Plus(WPow2(64 - Lg(w)), 1)>>)
    \o (IF wr THEN V(path, mode, "set_bits", <<Less(n, 3), N(4), Irregular(w, 2)>>) \o V(path, mode, "set_bits", <<N(3), Plus(P(n), 3), Irregular(w, 2)>>)
                   \o V(path, mode, "set_block", <<Plus(WPow2(64 - Lg(w)), 1), Irregular(w, 2)>>) ELSE <<>>)
Writes(path, mode, n, w, pts) ==
    FlatMap(LAMBDA p :
        V(path, mode, "set_bit", <<p, 1>>) \o V(path, mode, "get_bit", <<p>>)
        \o FlatMap(LAMBDA q : V(path, mode, "get_bit", <<q>>), Alias(p, n))
        \o V(path, mode, "set_bit", <<p, 0>>) \o V(path, mode, "get_bit", <<p>>)
        \o FlatMap(LAMBDA q : V(path, mode, "get_bit", <<q>>), Alias(p, n))
        \o V(path, mode, "set_bits", <<Less(p, w - 3), N(IF WLess(p, N(w)) THEN 1 ELSE w - 3), Irregular(w, 1)>>)
        \o V(path, mode, "set_bits", <<Less(p, 3), N(IF WLess(p, N(3)) THEN 1 ELSE 3), Irregular(w, 2)>>)
        \o V(path, mode, "set_block", <<Shr(p, Lg(w)), Irregular(w, 3)>>)
        \o V(path, mode, "get_block", <<Shr(p, Lg(w))>>)
        \o FlatMap(LAMBDA q : V(path, mode, "get_bits", <<Less(q, 7), N(IF WLess(q, N(7)) THEN 1 ELSE 7)>>), Alias(p, n)), pts)

(***************************************************************************)
(* Windows: <<path, visible bits>>.                                        *)
(***************************************************************************)
Win1(a, b) == << << <<a, b>> >>, WSub(b, a)>>
Win2(a, b, c, d) == << << <<a, b>>, <<c, d>> >>, WSub(d, c)>>
Windows(n) ==     \* P(n) < n - 9
    <<Win1(<<>>, n), Win1(N(3), n), Win1(Less(P(n), 5), n), Win1(Plus(P(n), 3), Less(n, 1)), Win1(N(1), P(n)), Win1(Q(n), Plus(P(n), 64)),
      Win2(N(3), Less(n, 1), H(n), Less(n, 9)), Win2(H(n), n, H(n), Less(WSub(n, H(n)), 2)),
      \* exactly P(n) shorter than what they are windows of, and exactly so long
      Win2(N(3), n, P(n), Less(n, 3)), Win2(N(5), Less(n, 2), N(7), WSub(n, P(n))), Win2(N(1), n, N(2), Plus(P(n), 2)),
      Win2(Less(P(n), 64), n, N(64), N(128)), Win2(N(64), Less(n, 3), Less(P(n), 64), Plus(P(n), 10))>>
    \o (IF WLess(WPow2(41), n) THEN <<Win1(WPow2(40), n), Win1(WSub(n, P32), n), Win2(N(7), n, Less(WSub(n, N(7)), 100), WSub(n, N(7)))>> ELSE <<>>)
BadWindows(n) ==
    << << <<<<>>, Plus(n, 1)>> >>, << <<n, WAdd(n, P(n))>> >>, << <<N(3), n>>, <<N(1), Less(n, 2)>> >>, << <<P(n), n>>, <<<<>>, Less(n, 1)>> >> >>
WinPts(n) == WSort(Below({<<>>, N(1), N(63), Less(P(n), 3), P(n), Plus(P(n), 2), Less(n, 1), Less(n, 64)}, n))
GoodPath(path) == \A j \in 1..Len(path) : Fit64(path[j][1]) /\ Fit64(path[j][2])

(***************************************************************************)
(* The cases, each a list of calls on one store.                           *)
(***************************************************************************)
WsD == IF Deep \/ Mid THEN <<8, 16, 32, 64>> ELSE IF Dense THEN <<32, 64>> ELSE <<8, 64>>
Gs == <<0, 1>>
DenseKinds == <<"bv", "iv", "vec">>
SparseKinds == <<"sblk", "sbit">>
LenOf(k, n, w, eb) == IF k = "iv" THEN LET e == Shr(n, Lg(64)) IN WMul(WShl(e, 6), <<1>>) ELSE IF k = "vec" THEN WShl(Shr(n, Lg(w)), Lg(w)) ELSE n

Kinds == (IF Dense \/ Mid THEN DenseKinds ELSE <<>>) \o (IF Dense THEN <<>> ELSE SparseKinds)
Us(w, g) == IF w \in {32, 64} THEN g ELSE 0
\* Among the many of middle length, every other
Skip(g, w, n) == Mid /\ (g + Lg(w) + LgBelow(n, 26)) % 2 = 1
StoreCase(f(_, _, _)) ==        \* kind, width, length
    FlatMap(LAMBDA k : FlatMap(LAMBDA w : FlatMap(LAMBDA n0 : FlatMap(LAMBDA g :
        LET n == LenOf(k, n0, w, 1)
        IN  IF Skip(g, w, n0) THEN <<>> ELSE <<Mk(k, w, Us(w, g), IF k = "iv" THEN 8 ELSE 1, n, g) \o f(k, w, n)>>, Gs), Lens), WsD), Kinds)

C04 == StoreCase(LAMBDA k, w, n : Asks(<<>>, 0, n, w, Pts(n)) \o Writes(<<>>, 1, n, w, Few(n)) \o Scan)
C05 == FlatMap(LAMBDA k : FlatMap(LAMBDA w : FlatMap(LAMBDA n0 : FlatMap(LAMBDA g :
        LET n == LenOf(k, n0, w, 1) IN
        IF Skip(g, w, n) THEN <<>> ELSE
        <<Mk(k, w, Us(w, g), 1, n, g)
          \o FlatMap(LAMBDA v : Asks(v[1], 0, v[2], w, WinPts(v[2])) \o Asks(v[1], 1, v[2], w, WinPts(v[2]))
                                \o Asks(v[1], 2, v[2], w, WinPts(v[2])) \o Writes(v[1], 3, v[2], w, SubSeq(WinPts(v[2]), 1, 2)) \o Writes(v[1], 1, v[2], w, <<Less(v[2], 1)>>)
                                \o Refused(v[1], 2, v[2], w, TRUE), Windows(n))
          \o FlatMap(LAMBDA path : IF GoodPath(path) THEN V(path, 0, "slen", <<>>) \o V(path, 1, "get_bit", <<<<>> >>) \o V(path, 2, "get_bit", <<<<>> >>) \o V(path, 3, "set_bit", <<<<>>, 1>>) ELSE <<>>, BadWindows(n))
          \o Scan>>, IF Deep \/ ~Dense THEN Gs ELSE <<IF w \in {8, 32} THEN 1 ELSE 0>>), IF Mid /\ ~Deep THEN <<Lens[1], Lens[3], Lens[5]>> ELSE Lens), WsD), IF Dense THEN <<"bv">> ELSE IF Mid THEN <<"bv", "vec">> \o SparseKinds ELSE SparseKinds)
C12 == StoreCase(LAMBDA k, w, n :
        Refused(<<>>, 0, n, w, TRUE)
        \o LET v == Win1(Less(P(n), 5), n) IN Refused(v[1], 1, v[2], w, TRUE) \o Scan
        \o (IF k = "iv" THEN FlatMap(LAMBDA p : C("get", <<p>>) \o C("set", <<p, Irregular(8, 1) \o Rep(0, w - 8)>>), Out(Shr(n, 3))) \o Scan ELSE <<>>))

\* Growing and shrinking a bit vector far out
Ending(n, w, g) ==
    C("push_bit", <<1>>) \o C("push_bit", <<0>>) \o C("get_bit", <<n>>) \o C("get_bit", <<Plus(n, 1)>>) \o C("pop_bit", <<>>) \o C("pop_bit", <<>>) \o C("pop_bit", <<>>)
    \o C("push_block", <<Irregular(w, 1)>>) \o C("push_bit", <<1>>) \o C("align_block", <<1>>) \o C("align_block", <<0>>) \o C("push_block", <<Irregular(w, 2)>>)
    \o C("resize", <<Plus(n, 3 * w + 70), 1>>) \o C("resize", <<Plus(n, 5 * w + 71), 0>>) \o C("truncate", <<Plus(n, 9)>>) \o C("resize", <<Plus(n, 40), 1>>)
    \o C("truncate", <<WAdd(n, P32)>>) \o C("truncate", <<Max64>>)
    \o Scan
    \o FlatMap(LAMBDA p : C("truncate", <<p>>) \o FlatMap(LAMBDA j : C("pop_bit", <<>>), <<1, 2, 3>>) \o C("push_bit", <<1>>) \o C("push_bit", <<0>>) \o C("push_bit", <<1>>)
                          \o C("get_bit", <<Less(p, 1)>>) \o C("get_bits", <<Less(p, 8), N(8)>>) \o C("set_bit", <<Less(p, 2), 1>>) \o C("resize", <<Plus(p, 2), g>>)
                          \o C("push_block", <<Irregular(w, 3)>>),
               <<Plus(P(n), 64), Plus(P(n), 1), P(n), Less(P(n), 1), Less(P(n), 64)>>) \o Scan
\* Growing by much, in elements of e bits
Much(k1, n, w, e, g) ==
    LET fill == Rep(g, e) \o Rep(0, w - e)
        to(k) == IF k1 = "bv" THEN C("resize", <<k, g>>) ELSE C("iv_resize", <<k, fill>>)
        cut(k) == IF k1 = "bv" THEN C("truncate", <<k>>) ELSE C("iv_truncate", <<k>>)
        blocks(k) == Shr(WMulSmall(k, e), Lg(w))
    IN  to(WMulSmall(n, 2)) \o Scan \o to(Plus(WMulSmall(n, 3), 5)) \o cut(Plus(n, 3)) \o to(WMulSmall(n, 2)) \o Scan
        \o cut(Less(n, 2)) \o C("block_resize", <<blocks(WMulSmall(n, 3))>>) \o Scan \o C("block_truncate", <<blocks(n)>>)
        \o cut(Less(n, 3 * w + 1)) \o C("block_resize", <<Plus(blocks(n), 9)>>) \o to(Plus(WMulSmall(n, 2), 1)) \o Scan \o C("block_resize", <<blocks(P(n))>>)
        \o C("block_resize", <<Less(blocks(P(n)), 1)>>) \o cut(N(1)) \o C("block_resize", <<blocks(n)>>) \o to(N(0)) \o to(n) \o Scan
C01 == FlatMap(LAMBDA w : FlatMap(LAMBDA g : FlatMap(LAMBDA n : <<Mk("bv", w, g, 1, n, g) \o Asks(<<>>, 0, n, w, Few(n)) \o Ending(n, w, g) \o (IF Mid THEN Much("bv", n, w, 1, g) ELSE <<>>),
                                                                Mk("bv", w, g, 1, P(n), g) \o Ending(P(n), w, g)>>, Lens), Gs), WsD)

\* Elements: the last ones, and those around the powers
C02 ==
    LET one2(w, eb, g, cnt) ==
        LET n == WMul(cnt, N(eb))
            v(k) == Take(Irregular(w, k), eb) \o Rep(0, w - eb)
            top == P(n)
            at == WSort(Below({<<>>, N(7), Less(cnt, 1), Less(cnt, 2), Less(cnt, 9), Less(cnt, 10)}
                              \cup (IF Mid THEN UNION {{Less(WPow2(k), 1), WPow2(k)} : k \in 6..24} ELSE {WPow2(k) : k \in {16, 24, 26, 27, 28, 29, 30, 31, 32}}), cnt))
        IN  <<Mk("iv", w, g, eb, n, g)
              \o FlatMap(LAMBDA p : C("get", <<p>>) \o C("set", <<p, v(1)>>) \o C("get", <<p>>) \o C("get", <<Less(p, 1)>>), at)
              \o FlatMap(LAMBDA p : C("get", <<p>>), Out(cnt))
              \o (IF w > eb THEN C("set", <<Less(cnt, 1), Rep(1, w)>>) ELSE <<>>)
              \o C("push", <<v(2)>>) \o C("push", <<v(3)>>) \o C("get", <<cnt>>) \o C("pop", <<>>) \o C("pop", <<>>) \o C("pop", <<>>)
              \o C("push", <<v(1)>>) \o C("iv_truncate", <<Plus(cnt, 1)>>) \o C("iv_truncate", <<Less(cnt, 5)>>) \o C("push", <<v(2)>>) \o C("get", <<Less(cnt, 5)>>)
              \o C("get_random", <<N(3), N(w), Less(Shr(Less(n, 5 * eb), Lg(w)), 2)>>) \o C("get_random", <<Less(n, 30 + 5 * eb), N(5), N(3)>>) \o C("get_random", <<Less(top, 30), N(5), N(6)>>) \o C("set_random", <<Less(top, 3), N(7), <<>>, Take(Irregular(w, 2), 7) \o Rep(0, w - 7)>>)
              \o C("get_random", <<Less(top, 3), N(7), <<>> >>) \o C("get_random", <<<<>>, <<1>>, Less(top, 3)>>)
              \o C("iv_resize", <<Plus(cnt, 30), v(1)>>) \o C("get", <<Plus(cnt, 29)>>) \o C("iv_resize", <<Less(cnt, 3), v(2)>>) \o C("pop", <<>>)
              \o (IF Mid /\ w % eb = 0 THEN Much("iv", cnt, w, eb, g) \o C("iv_resize", <<Less(cnt, 4), v(1)>>) ELSE <<>>)
              \o C("walk", << << <<"len">>, <<"n", Less(cnt, 9)>>, <<"n", <<>> >>, <<"b", <<>> >>, <<"len">> >> >>)
              \o Scan>>
        one(w, eb, g) ==
            one2(w, eb, g, Plus(WPow2(CASE eb = 1 -> 32 [] eb \in 2..3 -> 31 [] eb \in 5..7 -> 30 [] eb = 8 -> 29
                                        [] eb \in 13..16 -> 29 [] eb \in 31..33 -> 28 [] eb \in 63..64 -> 27), 9))   \* so that 2^32 bits are passed
    IN  IF Mid THEN FlatMap(LAMBDA w : FlatMap(LAMBDA eb : FlatMap(LAMBDA j : one2(w, eb, (eb + j) % 2, LET c == Shr(Lens[j], Lg(w) - 1) IN IF WLess(c, N(100)) THEN N(100) ELSE c),
                                                                  SelectSeq(Each(LAMBDA x : x, [j \in 1..Len(Lens) |-> j]), LAMBDA j : Deep \/ j = (eb % Len(Lens)) + 1 \/ j = ((eb + 2) % Len(Lens)) + 1)), [j \in 1..w |-> j] \o <<>>), WsD)
    ELSE
        one(64, 1, 0) \o one(64, 3, 1) \o one(64, 13, 0) \o one(64, 33, 0) \o one(64, 64, 0) \o one(8, 3, 0) \o one(8, 8, 1) \o one(32, 7, 0)
        \o (IF Deep THEN one(64, 2, 0) \o one(64, 63, 1) \o one(16, 13, 0) \o one(16, 16, 1) \o one(32, 31, 0) \o one(32, 32, 0) \o one(8, 1, 1) \o one(8, 5, 0) ELSE <<>>)

\* Iterators
Moves(n) ==
    << << <<"len">>, <<"hint">>, <<"count">>, <<"last">>, <<"n", <<>> >>, <<"b", <<>> >>, <<"len">> >>,
       << <<"n", Less(P(n), 1)>>, <<"n", <<>> >>, <<"n", <<>> >>, <<"len">>, <<"hint">>, <<"n", N(66)>>, <<"b", <<>> >>, <<"count">>, <<"last">> >>,
       << <<"b", N(20)>>, <<"len">>, <<"n", Less(P(n), 99)>>, <<"hint">>, <<"count">>, <<"last">>, <<"b", N(100)>>, <<"n", N(3)>>, <<"len">> >>,
       << <<"n", P(n)>>, <<"len">>, <<"n", P(n)>>, <<"n", <<>> >>, <<"b", <<>> >>, <<"len">> >>,
       << <<"n", N(70)>>, <<"b", N(9)>>, <<"len">>, <<"n", H(n)>>, <<"len">>, <<"n", H(n)>>, <<"n", N(60)>>, <<"hint">> >>,
       << <<"n", Less(n, 1)>>, <<"len">>, <<"n", <<>> >> >>, << <<"n", n>>, <<"len">>, <<"last">> >>,
       << <<"n", Max64>>, <<"hint">> >>, << <<"n", WPow2(63)>>, <<"len">> >>, << <<"n", N(5)>>, <<"n", Max64>>, <<"len">> >>, << <<"n", N(5)>>, <<"n", Less(Max64, 5)>>, <<"len">> >> >>
\* Stepping back may take a while
BackMoves(n) ==
    << << <<"b", P(n)>>, <<"b", N(20)>>, <<"b", <<>> >>, <<"len">>, <<"count">>, <<"last">> >>, << <<"b", Less(n, 1)>>, <<"len">> >>, << <<"n", N(5)>>, <<"b", Less(Max64, 5)>>, <<"len">> >> >>
Walks(n) == FlatMap(LAMBDA ms : C("walk", <<ms>>), Moves(n) \o (IF Mid THEN BackMoves(n) ELSE <<>>))
C06 == (IF Deep /\ Dense THEN <<Mk("bv", 64, 0, 1, Lens[1], 0) \o FlatMap(LAMBDA ms : C("walk", <<ms>>), BackMoves(Lens[1]))>> ELSE <<>>) \o
       FlatMap(LAMBDA w : FlatMap(LAMBDA g : FlatMap(LAMBDA n : IF Skip(g, w, n) THEN <<>> ELSE <<Mk("bv", w, g, 1, n, g) \o Walks(n), Mk("iv", w, g, 1, n, g) \o Walks(n)>>, Lens), Gs), WsD)
       \o (IF Mid THEN FlatMap(LAMBDA j : <<Mk("iv", 64, j % 2, 5 * j, WMulSmall(Lens[j], 5 * j), j % 2) \o Walks(Lens[j]), Mk("iv", 8, 0, j, WMulSmall(Lens[j], j), 0) \o Walks(Lens[j])>>, <<1, 2, 3, 4>>)
           ELSE <<Mk("iv", 64, 0, 3, WMulSmall(Plus(P32, 9), 3), 0) \o Walks(Plus(P32, 9))>>)

\* Rank and select
Both(op, a, b) == V(<<>>, 0, op, <<a, b>>) \o V(<<>>, 1, op, <<a, b>>)
Ranks(n) == C("limit", <<>>) \o FlatMap(LAMBDA p : Both("rank", p, 0) \o Both("rank", p, 1), Pts(n)) \o FlatMap(LAMBDA p : Both("rank", p, 0) \o Both("rank", p, 1), Out(n))
Sels(n) == FlatMap(LAMBDA k : Both("select", k, 0) \o Both("select", k, 1),
                   Each(N, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>) \o Pts(n) \o Each(LAMBDA k : Less(n, k), <<3, 4, 5, 6, 7, 8, 9, 10, 11>>) \o Out(n))
Kinds7 == IF Prop = "C07" THEN <<"jac", "rank9">> ELSE <<"selj", "sel9">>
Over(f(_, _)) ==
    FlatMap(LAMBDA k : FlatMap(LAMBDA w : FlatMap(LAMBDA g : FlatMap(LAMBDA n :
        IF Skip(g, w, n) \/ (k \in {"rank9", "sel9"} /\ w # 64) THEN <<>> ELSE <<Mk(k, w, IF k \in {"rank9", "sel9"} THEN 0 ELSE Us(w, g), 1, n, g) \o f(w, n)>>, Lens), Gs), IF Deep \/ Mid THEN <<8, 16, 32, 64>> ELSE <<16, 64>>), Kinds7)
Usr(f(_)) == FlatMap(LAMBDA n : FlatMap(LAMBDA g : <<Mk("usr", 8, 0, 1, n, g) \o f(n)>>, Gs), Lens)
\* A user's rank structure over other symbols than bits
Syms == FlatMap(LAMBDA n : FlatMap(LAMBDA g :
            <<Mk("sym", 8, 0, 1, n, g) \o C("limit", <<>>)
              \o FlatMap(LAMBDA x : FlatMap(LAMBDA p : V(<<>>, 0, "rank", <<p, x>>), Few(n) \o Out(n)) \o FlatMap(LAMBDA k : V(<<>>, 0, "select", <<k, x>>), <<<<>>, <<1>>, N(3), N(8)>> \o Few(n) \o Out(n)), <<0, 1, 2, 255>>)>>,
            Gs), Lens)
C07 == IF Dense \/ Mid THEN Over(LAMBDA w, n : Ranks(n)) ELSE <<>>
C08 == (IF Dense \/ Mid THEN Over(LAMBDA w, n : Sels(n)) ELSE <<>>) \o (IF Dense THEN <<>> ELSE Usr(LAMBDA n : Sels(n)) \o Syms)
C17 == (IF Dense \/ Mid
        THEN Over(LAMBDA w, n : Asks(<<>>, 0, n, w, Few(n)) \o Refused(<<>>, 0, n, w, FALSE) \o C("limit", <<>>)
                                \o FlatMap(LAMBDA p : Both("rank", p, 1) \o Both("rank", p, 0), Few(n)))
             \o FlatMap(LAMBDA w : FlatMap(LAMBDA n : <<Mk("bufv", w, 0, 1, n, 1) \o Asks(<<>>, 0, n, w, Few(n)) \o Refused(<<>>, 1, n, w, TRUE) \o Writes(<<>>, 1, n, w, Few(n)) \o Scan>>, Lens), WsD)
        ELSE <<>>)
       \o (IF Dense THEN <<>> ELSE
            Usr(LAMBDA n : C("limit", <<>>) \o FlatMap(LAMBDA p : Both("rank", p, 1) \o Both("rank", p, 0), Pts(n) \o Out(n)))
            \o Syms
            \o FlatMap(LAMBDA n : FlatMap(LAMBDA w : <<Mk("bufs", w, 0, 1, n, 1) \o Asks(<<>>, 0, n, w, Few(n)) \o Refused(<<>>, 1, n, w, TRUE) \o Writes(<<>>, 1, n, w, Few(n)) \o Scan>>, WsD), Lens))

\* Integers at a cursor
Ints(n) ==
    FlatMap(LAMBDA p : FlatMap(LAMBDA c :
        C("seek", <<p>>) \o C("rint", <<c[1], c[2]>>) \o C("seek", <<p>>) \o C("wint", <<c[1], c[2], Irregular(64, c[1] + c[2])>>) \o C("read", <<>>)
        \o C("seek", <<p>>) \o C("rint", <<c[1], c[2]>>) \o C("seek", <<p>>) \o C("rint", <<c[1], 1 - c[2]>>), << <<0, 0>>, <<1, 0>>, <<7, 1>>, <<13, 0>>, <<64, 1>>, <<64, 0>> >>),
        SelectSeq(Few(n), LAMBDA p : WLess(Plus(p, 70), n)))
    \o C("seek", <<Less(n, 5)>>) \o C("rint", <<7, 0>>) \o C("seek", <<Less(n, 1)>>) \o C("rint", <<2, 1>>) \o C("seek", <<n>>) \o C("rint", <<1, 1>>) \o C("rint", <<0, 0>>)
    \o C("seek", <<Less(n, 5)>>) \o C("wint", <<9, 1, Irregular(64, 2)>>) \o C("wint", <<64, 0, Irregular(64, 3)>>) \o C("read", <<>>) \o C("seek", <<Less(n, 64)>>) \o C("rint", <<64, 0>>) \o C("rint", <<64, 1>>) \o C("rint", <<64, 1>>) \o Scan
\* A cursor
Curs(n) ==
    FlatMap(LAMBDA p : C("seek", <<p>>) \o C("read", <<>>) \o C("read", <<>>) \o C("seek", <<p>>) \o C("write", <<1>>) \o C("write", <<0>>) \o C("read", <<>>), SelectSeq(Pts(n), LAMBDA p : WLess(Plus(p, 70), Max64)))
    \o FlatMap(LAMBDA p : C("seek", <<p>>) \o C("read", <<>>), SelectSeq(Out(Plus(n, 2)), Fit64))
    \o C("seek", <<n>>) \o C("write", <<1>>) \o C("write", <<0>>) \o C("write", <<1>>) \o C("read", <<>>) \o C("seek", <<Plus(n, 1)>>) \o C("read", <<>>) \o C("read", <<>>) \o C("read", <<>>) \o Scan
Bufs(f(_)) ==
    FlatMap(LAMBDA k : FlatMap(LAMBDA n : FlatMap(LAMBDA w : FlatMap(LAMBDA g : IF Skip(g, w, n) THEN <<>> ELSE <<Mk(k, w, 0, 1, n, g) \o f(n)>>, Gs), WsD),
                                                  SelectSeq(Lens, LAMBDA n : WLess(n, Less(Max64, 200)))),
            (IF Dense \/ Mid THEN <<"bufv">> ELSE <<>>) \o (IF Dense THEN <<>> ELSE <<"bufs">>))
C09 == Bufs(Curs)
C18 == Bufs(Ints)

\* Copies, changed somewhere or not, compared with their original
BvIv(f(_, _, _)) ==
    FlatMap(LAMBDA w : FlatMap(LAMBDA g : FlatMap(LAMBDA j : IF Skip(g, w, Lens[j]) THEN <<>> ELSE
        <<Mk("bv", w, Us(w, g), 1, Lens[j], g) \o f(w, 1, Lens[j])>>
        \o (IF Dense THEN <<>> ELSE LET eb == ((3 * j + Lg(w)) % w) + 1 IN <<Mk("iv", w, Us(w, g), eb, WMulSmall(Lens[j], eb), g) \o f(w, eb, Lens[j])>>),
        [j \in 1..Len(Lens) |-> j] \o <<>>), IF Dense THEN <<1>> ELSE Gs), IF Dense THEN <<64>> ELSE WsD)
C03 == BvIv(LAMBDA w, eb, n :
        LET bits == WMulSmall(n, eb) IN
        FlatMap(LAMBDA d : C("compare", d),
                << <<"same", <<>> >>, <<"push", <<>> >>, <<"push", <<1>> >>, <<"cut", Less(n, 1)>>, <<"cut", P(n)>>, <<"cut", Less(n, 65)>> >>
                \o Each(LAMBDA p : <<"flip", p>>, IF Dense THEN <<Less(bits, 1), P(n)>> ELSE SelectSeq(Pts(bits), LAMBDA p : WLess(p, bits)))
                \o Each(LAMBDA p : <<"twice", p>>, IF Dense THEN <<>> ELSE Few(bits)))
        \o Scan)
\* Room asked for and used
C13 == BvIv(LAMBDA w, eb, n :
        FlatMap(LAMBDA r : C("room", r),
                << <<"reserve", N(3)>>, <<"exact", N(1)>>, <<"reserve", Q(n)>>, <<"shrink", <<>> >>, <<"exact", P(n)>>, <<"breserve", N(2)>>, <<"bexact", Q(n)>>, <<"shrink", <<>> >>,
                   <<"below", N(300)>>, <<"reserve", n>>, <<"clear", <<>> >>, <<"reserve", Plus(n, 7)>>, <<"clear", <<>> >>, <<"below", n>>,
                   <<"with", n>>, <<"exact", <<>> >>, <<"bwith", Shr(n, Lg(w))>>, <<"below", N(100)>>, <<"shrink", <<>> >>, <<"breserve", Shr(n, Lg(w))>>, <<"reserve", Less(n, 1)>>,
                   <<"with", Less(n, 1)>>, <<"shrink", <<>> >>, <<"reserve", P(n)>>, <<"exact", P(n)>> >>)
        \o Scan)

Cases == CASE Prop = "C01" -> C01 [] Prop = "C02" -> C02 [] Prop = "C03" -> C03 [] Prop = "C13" -> C13 [] Prop = "C04" -> C04 [] Prop = "C05" -> C05 [] Prop = "C06" -> C06
           [] Prop = "C07" -> C07 [] Prop = "C08" -> C08 [] Prop = "C09" -> C09 [] Prop = "C12" -> C12 [] Prop = "C17" -> C17 [] Prop = "C18" -> C18

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
