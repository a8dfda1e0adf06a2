------------------------------- MODULE GenFun -------------------------------
(***************************************************************************)
(* Questions for the real block and broadword functions: for every type,   *)
(* every span of a block, and every argument next to a power of two or to  *)
(* the end of its range; for broadword operations every run of ones at     *)
(* every place and every byte in every lane, with every rank worth asking. *)
(***************************************************************************)
EXTENDS Wide, Integers, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

VARIABLE i

Gen == IOEnv.GEN
Deep == IOEnv.TIER = "thorough"
FlatMap(Op(_), s) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])
Upto(n) == [j \in 1..n |-> j] \o <<>>

\* 0 stands for usize, 1 for a user's block type of 32 bits
Width(t) == IF t = 0 THEN 64 ELSE IF t = 1 THEN 32 ELSE t
Types == <<8, 16, 32, 64, 0, 1>>

\* 0 .. 2^n - 1: the numbers near its powers of two and its end
NearPow(n) ==
    FlatMap(LAMBDA k1 : LET p == WPow2(k1 - 1) IN
                <<p>> \o (IF k1 > 1 THEN <<WSub(p, <<1>>)>> ELSE <<>>) \o (IF k1 > 1 /\ k1 <= n THEN <<WAdd(p, <<1>>)>> ELSE <<>>), Upto(n))
    \o << <<>>, WMax(n), WSub(WMax(n), <<1>>), WOfBits([j \in 1..n |-> j % 2]), WOfBits([j \in 1..n |-> IF j % 3 = 0 THEN 1 ELSE 0]) >>
Beyond(w) == <<WNat(w), WNat(w + 1), WNat(2 * w), WPow2(31), WPow2(32), WPow2(63), WAdd(WPow2(63), <<1>>), WMax(64), WSub(WMax(64), WNat(w - 1)), WSub(WMax(64), WNat(w))>>

Patterns(w) == <<WMax(w), <<>>, WOfBits([j \in 1..w |-> IF ((j * j + 2 * (j \div 3)) % 5) < 2 THEN 1 ELSE 0])>>

Q1(o, x) == << <<o, x>> >>

Spans(w) ==
    FlatMap(LAMBDA v :
        FlatMap(LAMBDA s1 : LET s == s1 - 1 IN
            FlatMap(LAMBDA c1 : LET c == c1 - 1 IN
                IF w > 16 /\ ~Deep /\ (s * 7 + c * 3 + Len(v)) % 4 # 0 /\ c \notin {0, 1, w - s, w - s + 1, w} /\ s \notin {0, w} THEN <<>>
                ELSE << <<"get_bits", v, WNat(s), WNat(c)>>,
                        <<"with_bits", v, WNat(s), WNat(c), IF v = <<>> THEN WMax(w) ELSE <<>> >> >>,
                Upto(w - s + 2)), Upto(w + 1)),
        SubSeq(Patterns(w), 1, 2))
    \o FlatMap(LAMBDA s1 : << <<"with_bits", WMax(w), WNat(s1 - 1), WNat((w - s1 + 1) \div 2), Patterns(w)[3]>>,
                              <<"with_bits", <<>>, WNat(s1 - 1), WNat(w - s1 + 1), Patterns(w)[3]>>,
                              <<"get_bits", Patterns(w)[3], WNat(s1 - 1), WNat(w - s1 + 1)>> >>, Upto(w + 1))
    \o FlatMap(LAMBDA x : << <<"get_bits", WMax(w), x, <<>> >>, <<"get_bits", WMax(w), x, <<1>> >>, <<"get_bits", WMax(w), <<>>, x>>, <<"get_bits", WMax(w), <<1>>, x>>,
                             <<"get_bits", WMax(w), x, x>>, <<"get_bits", WMax(w), x, WSub(WPow2(64), x)>>,
                             <<"with_bits", WMax(w), x, <<>>, <<>> >>, <<"with_bits", WMax(w), x, <<1>>, <<>> >>, <<"with_bits", WMax(w), <<1>>, x, <<>> >>, <<"with_bits", <<>>, x, x, WMax(w)>>,
                             <<"get_bit", WMax(w), x>>, <<"with_bit", WMax(w), x, 0>>, <<"with_bit", <<>>, x, 1>> >>,
               SelectSeq(Beyond(w), LAMBDA x : WFits(x, 64)))

Bitwise(w) ==
    FlatMap(LAMBDA v : FlatMap(LAMBDA s : << <<"get_bit", v, WNat(s - 1)>>, <<"with_bit", v, WNat(s - 1), 0>>, <<"with_bit", v, WNat(s - 1), 1>> >>, Upto(w)), Patterns(w))
    \o FlatMap(LAMBDA s : Q1("low_mask", WNat(s - 1)), Upto(w + 1)) \o FlatMap(LAMBDA s : Q1("nth_mask", WNat(s - 1)), Upto(w))

Logs(w) == FlatMap(LAMBDA x : Q1("ceil_lg", x) \o Q1("floor_lg", x), NearPow(w))

Divs(w) ==
    LET xs == NearPow(w)
        ds == IF Deep \/ w <= 16 THEN xs ELSE SelectSeq(xs, LAMBDA x : (WD(x, 1) + Len(x)) % 3 # 1)
    IN  FlatMap(LAMBDA k : FlatMap(LAMBDA d : IF w > 16 /\ ~Deep /\ (k + Len(d) + WD(d, 1)) % 5 # 0 THEN <<>> ELSE << <<"ceil_div", xs[k], d>> >>, ds), Upto(Len(xs)))

Addresses(w) ==
    FlatMap(LAMBDA x : FlatMap(LAMBDA o : Q1(o, x), <<"div_nbits", "ceil_div_nbits", "checked_div_nbits", "checked_ceil_div_nbits", "mod_nbits", "last_block_bits", "address">>)
                       \o (IF WFits(WMulSmall(x, w), 64) THEN Q1("mul_nbits", x) ELSE <<>>)
                       \o (IF WFits(WMulAddSmall(x, w, w - 1), 64) THEN << <<"bit_index", x, <<>> >>, <<"bit_index", x, WNat(w - 1)>>, <<"bit_index", x, <<1>> >> >> ELSE <<>>),
            NearPow(64) \o Beyond(w))

All16 == IF Deep THEN FlatMap(LAMBDA x : Q1("ceil_lg", WNat(x - 1)) \o Q1("floor_lg", WNat(x - 1)), Upto(65536)) ELSE <<>>

\* Questions in packets of 60
Packets(w, us, op, qs) ==
    LET n == (Len(qs) + 59) \div 60
    IN  [j \in 1..n |-> [op |-> op, w |-> w, us |-> us, qs |-> SubSeq(qs, 60 * (j - 1) + 1, Min(60 * j, Len(qs)))]] \o <<>>

Blocks ==
    FlatMap(LAMBDA t : LET w == Width(t)  us == IF t <= 1 THEN 1 ELSE 0 IN
        Packets(w, us, "block", << <<"nbits">>, <<"lg_nbits">>, <<"lg_nbits_mask">> >> \o Spans(w) \o Bitwise(w) \o Logs(w) \o Divs(w) \o Addresses(w)), Types)
    \o Packets(16, 0, "block", All16)

(***************************************************************************)
(* Words.                                                                  *)
(***************************************************************************)
Run(s, k) == WOfBits(Rep(0, s) \o Rep(1, k) \o Rep(0, 64 - s - k))
Not64(x) == WSub(WMax(64), x)
Selects(x, n) ==        \* n ones in x
    FlatMap(LAMBDA r : << <<"select1", x, WNat(r)>> >>, SetToSortSeq({r \in {0, 1, n \div 2, n - 1, n, n + 1} : r >= 0}, LAMBDA p, q : p < q))
    \o (IF n > 0 THEN << <<"select1_raw", x, WNat(n - 1)>> >> ELSE <<>>) \o (IF n < 64 THEN << <<"select1_raw", x, WNat(n)>> >> ELSE <<>>)
    \o << <<"count_ones", x>> >>

Runs ==
    FlatMap(LAMBDA s1 : LET s == s1 - 1 IN
        FlatMap(LAMBDA k : IF ~Deep /\ (s + 3 * k) % 4 # 0 /\ s # 0 /\ k # 64 - s /\ k # 1 THEN <<>>
                           ELSE LET x == Run(s, k) IN Selects(x, k) \o Selects(Not64(x), 64 - k), Upto(64 - s)), Upto(64))

\* Byte v in lane j, every other lane o
Lanes(v, j, o) == WOfBits(FlattenSeq([k \in 1..8 |-> WBits(WNat(IF k = j THEN v ELSE o), 8)]))
Weight(v) == Ones(WBits(WNat(v), 8))
Bytes ==
    FlatMap(LAMBDA v1 : LET v == v1 - 1 IN
        FlatMap(LAMBDA j :
            FlatMap(LAMBDA o :
                LET x == Lanes(v, j, o)  before == (j - 1) * Weight(o)
                IN  << <<"u_nz8", x>>, <<"count_ones", x>> >>
                    \o FlatMap(LAMBDA r : << <<"select1", x, WNat(before + r - 1)>> >>, Upto(Weight(v) + 1)),
                IF Deep THEN <<0, 255, 129>> ELSE <<0, 255>>),
            IF Deep THEN Upto(8) ELSE <<1, (v % 6) + 2, 8>>), Upto(256))

\* Comparing lanes: every byte against the bytes near it and near the ends,
\* in every lane, in every company
Others(v) == SetToSortSeq({0, 1, 127, 128, 129, 254, 255, v} \cup {(v + d) % 256 : d \in {1, 255, 128, 127, 129}}, LAMBDA p, q : p < q)
Company == << <<0, 0>>, <<0, 255>>, <<255, 0>>, <<128, 127>>, <<127, 128>>, <<129, 1>> >>
Compares ==
    FlatMap(LAMBDA v1 : LET v == v1 - 1 IN
        FlatMap(LAMBDA q : LET j == ((v + q) % 8) + 1  c == Company[((v + (q \div 2)) % 6) + 1] IN
            << <<"u_le8", Lanes(v, j, c[1]), Lanes(q, j, c[2])>>, <<"le8", Lanes(v, j, c[1]), Lanes(q, j, c[2])>> >>,
            IF Deep THEN [k \in 1..256 |-> k - 1] \o <<>> ELSE Others(v)), Upto(256))

WordQs == << <<"l8", <<>> >>, <<"h8", <<>> >> >> \o Runs \o Bytes \o Compares \o Selects(<<>>, 0) \o Selects(WMax(64), 64)
          \o FlatMap(LAMBDA x : << <<"select1", WMax(64), x>> >>, Beyond(64))

Cases == IF Gen = "C14" THEN Blocks ELSE Packets(64, 0, "word", WordQs)

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
