------------------------------ MODULE GenRank ------------------------------
(***************************************************************************)
(* Rank and select cases for the real structures: every bit sequence of up *)
(* to a bound, every length of a patterned sequence up to another bound    *)
(* (directory sizes change at many of them), in every kind of store, with  *)
(* every question that makes sense of each.                                *)
(***************************************************************************)
EXTENDS WrapSpec, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

VARIABLE i

Gen == IOEnv.GEN
Deep == IOEnv.TIER = "thorough"
FlatMap(Op(_), s) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])
Upto(n) == [j \in 1..n |-> j]

Far == 2147483647
Q(name, p, c) == <<name, p, c, "", "">>
QFar(name, c, t) == <<name, Far, c, t, "">>
FarTexts == <<"18446744073709551615", "9223372036854775807", "4294967296">>

\* n bits, o of them ones
RankQs(n, o) ==
    <<Q("limit", 0, 0), Q("all_rank1", 0, 0), Q("all_rank0", 0, 0)>>
    \o (IF n = 0 THEN <<>> ELSE <<Q("rank", n - 1, 0), Q("rank", n - 1, 1), Q("rank", 0, 0), Q("rank", n \div 2, 1)>>)
    \o FlatMap(LAMBDA d : <<Q("rank1", n + d - 1, 0), Q("rank0", n + d - 1, 0), Q("rank", n + d - 1, 1), Q("rank", n + d - 1, 0)>>, <<1, 2, 9, 65>>)
    \o FlatMap(LAMBDA t : <<QFar("rank1", 0, t), QFar("rank0", 0, t), QFar("rank", 1, t)>>, FarTexts)

SelQs(n, o) ==
    <<Q("all_sel1", 0, 0), Q("all_sel0", 0, 0)>>
    \o FlatMap(LAMBDA d : <<Q("select1", o + d - 1, 0), Q("select0", n - o + d - 1, 0), Q("select", o + d - 1, 1), Q("select", n - o + d - 1, 0)>>, <<1, 2, 66>>)
    \o (IF o = 0 THEN <<>> ELSE <<Q("select", o - 1, 1), Q("select", 0, 1), Q("select", o \div 2, 1)>>)
    \o (IF n = o THEN <<>> ELSE <<Q("select", n - o - 1, 0), Q("select", 0, 0), Q("select", (n - o) \div 2, 0)>>)
    \o FlatMap(LAMBDA t : <<QFar("select1", 0, t), QFar("select0", 0, t), QFar("select", 1, t), QFar("select", 0, t)>>, FarTexts)

BitQs(n, w) ==
    <<Q("bit_len", 0, 0), Q("block_len", 0, 0), Q("limit", 0, 0)>>
    \o FlatMap(LAMBDA p : <<Q("get_bit", p - 1, 0)>>, IF n > 70 THEN <<1, 2, 64, 65, n, n + 1>> ELSE Upto(n + 1))
    \o FlatMap(LAMBDA p : IF p > n + 1 THEN <<>> ELSE <<Q("get_bits", p - 1, Min(w, n - p + 1)), Q("get_bits", p - 1, Min(w, n - p + 1) \div 2), Q("get_bits", p - 1, Min(w + 1, n - p + 2))>>, <<1, 2, 4, 8, 9, 13, 60, 65>>)
    \o FlatMap(LAMBDA p : <<Q("get_block", p - 1, 0)>>, IF n > 600 THEN <<1, 2, BlockLen(n, w), BlockLen(n, w) + 1>> ELSE Upto(BlockLen(n, w) + 1))

\* A case: the sequence b, shown through a window of a larger one if sl > 0
Case(k, w, b, sl) ==
    LET lead == IF sl = 0 THEN <<>> ELSE <<1, 0, 1>>
        tail == IF sl = 0 THEN <<>> ELSE <<1, 1>>
        all  == lead \o b \o tail
    IN  <<[k |-> k, w |-> w, segs |-> IF all = <<>> THEN <<>> ELSE << <<all, 1>> >>, win |-> <<Len(lead), Len(b)>>, sl |-> sl,
           bits |-> BitQs(Len(b), w), rank |-> RankQs(Len(b), Ones(b)), sel |-> SelQs(Len(b), Ones(b))]>>

AllBits(n) == [x \in 1 .. 2^n |-> [j \in 1..n |-> ((x - 1) \div (2 ^ (j - 1))) % 2] \o <<>>]
Irregular(n, k) == [j \in 1..n |-> IF ((j * j + 3 * (j \div 3) + k * j + k) % 5) \in {0, 1} THEN 1 ELSE 0] \o <<>>
Sparse(n, k) == [j \in 1..n |-> IF j % k = 1 THEN 1 ELSE 0] \o <<>>

\* Lengths at which directories change: all up to m, then around multiples
Lens(w) ==
    LET m == IF Deep THEN 700 ELSE IF Gen = "C17" THEN 40 ELSE 150
    IN  Upto(m) \o FlatMap(LAMBDA k : FlatMap(LAMBDA d : <<k + d - 2>>, IF Deep THEN Upto(3) ELSE <<1, 2>>),
                           IF Deep THEN <<767, 1024, 1280, 1536, 2047, 2048, 2560, 3072, 4095, 4096, 4100>>
                           ELSE IF w = 64 THEN <<256, 512, 576, 1024, 1537>> ELSE <<256, 512, 1024>>)

Cases ==
    LET max == IF Deep THEN 11 ELSE 7
        AllEight == AllBits(8) IN
    FlatMap(LAMBDA n :
        LET all == AllBits(n - 1) IN
        FlatMap(LAMBDA x : LET b == all[x] IN
            Case("bv", 8, b, 0) \o Case("oblk", 64, b, 0)
            \o (IF n - 1 <= 5 \/ Deep THEN Case("oblk", 8, b, 0) \o Case("bv", 64, b, 1) \o Case("bools", 8, b, x % 5) \o Case("obits", 64, b, 0) ELSE <<>>),
            Upto(2 ^ (n - 1))),
        Upto(max + 1))
    \* primitives as structures of their own
    \o FlatMap(LAMBDA x : Case("prim", 8, AllEight[x], 0), Upto(256))
    \o FlatMap(LAMBDA k : Case("prim", 64, Irregular(64, k), 0) \o Case("prim", 64, Sparse(64, k + 1), 0)
                          \o Case("prim", 16, Irregular(16, k), 0) \o Case("prim", 32, Sparse(32, 33 - k), 0)
                          \o Case("prim", 64, (Rep(0, 2 * k) \o Rep(1, 64 - 2 * k)) \o <<>>, 0)
                          \o Case("prim", 64, (Rep(1, k) \o Rep(0, 64 - k)) \o <<>>, 0), Upto(32))
    \o FlatMap(LAMBDA w : FlatMap(LAMBDA n :
            Case(IF n % 3 = 0 THEN "oblk" ELSE "bv", w, Irregular(n, n % 4), IF n % 7 = 5 THEN 1 ELSE 0)
            \o (IF Deep \/ n % 5 = 0 THEN Case("bv", w, Rep(n % 2, n) \o <<>>, 0) \o Case("bv", w, Sparse(n, 61), 0) ELSE <<>>),
            Lens(w)), IF Deep THEN <<8, 16, 32, 64>> ELSE <<8, 64>>)

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
