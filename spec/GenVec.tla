------------------------------- MODULE GenVec -------------------------------
(***************************************************************************)
(* Histories for the real bit stores, enumerated from the specification.   *)
(*                                                                         *)
(* A case is an abstract state of VecSpec together with every operation of *)
(* a property's alphabet at every argument that matters in that state.     *)
(* The driver puts a real store into the state, performs each operation on *)
(* a fresh copy of it, and VecTrace decides whether what the code did is   *)
(* the action of that name.  Within its bounds this misses no pair of a    *)
(* state and an operation.                                                 *)
(***************************************************************************)
EXTENDS Bits, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

VARIABLE i

Gen == IOEnv.GEN
Deep == IOEnv.TIER = "thorough"

Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
FlatMap(Op(_), s) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])
Each(Op(_), s) == [j \in 1..Len(s) |-> Op(s[j])] \o <<>>

(***************************************************************************)
(* Contents and values.                                                    *)
(***************************************************************************)
Irregular(n, k) == [j \in 1..n |-> IF ((j * j + 3 * (j \div 3) + k * j + k) % 5) \in {0, 1} THEN 1 ELSE 0] \o <<>>
Ones1(n) == Rep(1, n) \o <<>>
Zeros(n) == Rep(0, n) \o <<>>
Contents(n) == IF n = 0 THEN <<Zeros(0)>> ELSE <<Ones1(n), Irregular(n, 1)>> \o (IF Deep THEN <<Zeros(n), Irregular(n, 2)>> ELSE <<>>)
Values(w) == <<Ones1(w), Zeros(w), Irregular(w, 3)>>

\* Numbers far beyond every length: as TLC sees them, and exactly
Far == 2147483647
FarTexts == <<"18446744073709551615", "18446744073709551608", "9223372036854775808", "4294967296">>

\* Positions that matter in a sequence of n: all of them when blocks are
\* small, those around block boundaries otherwise.
Around(S, n) == {p \in UNION {{s, s + 1, s + 2} : s \in S} : p >= 1 /\ p <= n + 2}
Places(n, w) ==     \* shifted down by one: 0 .. n+1
    IF w <= 8 THEN [j \in 1..n + 2 |-> j - 1] \o <<>>
    ELSE Each(LAMBDA p : p - 1, Sorted(Around({0, n} \cup {k * w : k \in 0 .. n \div w} \cup {n \div 2}, n)))

Lengths(w) == IF w = 8 THEN Each(LAMBDA p : p - 1, Sorted(1 .. (IF Deep THEN 34 ELSE 19)))
              ELSE <<0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 3>>
Widths == <<8, 64>> \o (IF Deep THEN <<16, 32>> ELSE <<>>)

(***************************************************************************)
(* Operation records; the driver fills in the rest.                        *)
(***************************************************************************)
R(op, a)        == <<[op |-> op, a |-> a, m |-> 0]>>
M(op, a)        == <<[op |-> op, a |-> a, m |-> 1]>>
RX(op, a, ax)   == <<[op |-> op, a |-> a, ax |-> ax, m |-> 0]>>
MX(op, a, ax)   == <<[op |-> op, a |-> a, ax |-> ax, m |-> 1]>>
Via(path, ops)  == [j \in 1..Len(ops) |-> [op |-> ops[j].op, a |-> ops[j].a, m |-> ops[j].m, path |-> path]]

\* Reading and writing: every place, every span from every place
ReadsAt(n, w) ==
    FlatMap(LAMBDA s : R("get_bit", <<s>>)
                       \o FlatMap(LAMBDA c : R("get_bits", <<s, c>>),
                                  IF w <= 8 THEN [c \in 1..w + 2 |-> c - 1]
                                  ELSE <<0, 1, 2, w - 1, w, w + 1>>),
            Places(n, w))
    \o FlatMap(LAMBDA k : R("get_block", <<k - 1>>), Sorted(1 .. BlockLen(n, w) + 2))

WritesAt(n, w) ==
    FlatMap(LAMBDA s : M("set_bit", <<s, 0>>) \o M("set_bit", <<s, 1>>)
                       \o FlatMap(LAMBDA c : FlatMap(LAMBDA v : M("set_bits", <<s, c, v>>), Values(w)),
                                  IF w <= 8 THEN (IF Deep THEN [c \in 1..w + 2 |-> c - 1] ELSE <<0, 1, 3, 5, w - 1, w, w + 1>>)
                                  ELSE <<0, 1, w - 1, w, w + 1>>),
            Places(n, w))
    \o FlatMap(LAMBDA k : FlatMap(LAMBDA v : M("set_block", <<k - 1, v>>), Values(w)), Sorted(1 .. BlockLen(n, w) + 2))

FarOps(n, w) ==
    FlatMap(LAMBDA t :
        RX("get_bit", <<Far>>, <<t>>) \o RX("get_bits", <<Far, 1>>, <<t, "">>)
        \o RX("get_bits", <<Far, w>>, <<t, "">>) \o RX("get_bits", <<0, Far>>, <<"", t>>)
        \o RX("get_block", <<Far>>, <<t>>)
        \o MX("set_bit", <<Far, 1>>, <<t, "">>)
        \o MX("set_bits", <<Far, w, Ones1(w)>>, <<t, "", "">>)
        \o MX("set_bits", <<Far, 0, Ones1(w)>>, <<t, "", "">>)
        \o MX("set_bits", <<1, Far, Ones1(w)>>, <<"", t, "">>)
        \o MX("set_block", <<Far, Ones1(w)>>, <<t, "">>),
        FarTexts)

\* Growing and shrinking a bit vector
Around8(n, w) == Sorted({p \in {0, 1, n - 1, n, n + 1, n + 2, w - 1, w, w + 1, 2 * w, 2 * w + 1, 3 * w + 2, n + w - 1, n + w, n + w + 1} \cup {BlockLen(n, w) * w, BlockLen(n, w) * w + 1} : p >= 0})
GrowBv(n, w) ==
    M("push_bit", <<0>>) \o M("push_bit", <<1>>) \o M("pop_bit", <<>>)
    \o FlatMap(LAMBDA v : M("push_block", <<v>>), Values(w))
    \o M("align_block", <<0>>) \o M("align_block", <<1>>)
    \o FlatMap(LAMBDA k : M("resize", <<k, 0>>) \o M("resize", <<k, 1>>) \o M("truncate", <<k>>),
               IF w <= 8 THEN Places(n + w + 4, w) ELSE Around8(n, w))
    \o FlatMap(LAMBDA k : M("block_truncate", <<k - 1>>)
                          \o FlatMap(LAMBDA v : M("block_resize", <<k - 1, v>>), Values(w)),
               Sorted(1 .. BlockLen(n, w) + 3))
    \o M("clear", <<>>) \o M("shrink_to_fit", <<>>) \o M("reserve", <<5>>) \o M("block_reserve", <<1>>)
    \o R("fmt_bin", <<>>)

\* A shorter alphabet for the second operation of a pair
Again(n, w) ==
    M("push_bit", <<0>>) \o M("push_bit", <<1>>) \o M("pop_bit", <<>>) \o M("push_block", <<Zeros(w)>>) \o M("push_block", <<Ones1(w)>>)
    \o M("align_block", <<0>>) \o M("align_block", <<1>>)
    \o M("resize", <<n + 1, 0>>) \o M("resize", <<n + w, 1>>) \o M("resize", <<n + w, 0>>) \o M("block_resize", <<BlockLen(n, w) + 1, Zeros(w)>>)
    \o M("truncate", <<n \div 2>>)
Pairs(n, w) == FlatMap(LAMBDA o : IF o.m = 0 THEN <<>> ELSE FlatMap(LAMBDA p : <<[pair |-> <<o, p>>, m |-> 1]>>, Again(n, w)), GrowBv(n, w))

(***************************************************************************)
(* Integer vectors.                                                        *)
(***************************************************************************)
IntVals(w, eb) ==
    Each(LAMBDA v : Widen(Take(v, eb), w) \o <<>>, <<Ones1(w), Zeros(w), Irregular(w, 3)>>)
TooWide(w, eb) == IF eb = w THEN <<>> ELSE <<Zeros(eb) \o <<1>> \o Zeros(w - eb - 1), Ones1(w), Zeros(w - 1) \o <<1>> \o <<>> >>

IvOps(l, w, eb) ==
    LET n == l * eb
        vals == IntVals(w, eb) \o TooWide(w, eb)
        grow == Sorted({p \in {0, 1, l - 1, l, l + 1, l + 2, l \div 2, l + (w \div eb), l + 2 * (w \div eb) + 1} : p >= 0})
    IN  R("pop", <<>>) \o M("pop", <<>>) \o R("iv_info", <<>>) \o M("clear", <<>>) \o M("shrink_to_fit", <<>>)
        \o FlatMap(LAMBDA v : M("push", <<v>>), vals)
        \o FlatMap(LAMBDA p : R("get", <<p - 1>>) \o FlatMap(LAMBDA v : M("set", <<p - 1, v>>), vals), Sorted(1 .. l + 2))
        \o FlatMap(LAMBDA k : M("truncate", <<k>>)
                              \o FlatMap(LAMBDA v : M("iv_resize", <<k, v>>), IntVals(w, eb))
                              \o (IF k > l THEN FlatMap(LAMBDA v : M("iv_resize", <<k, v>>), TooWide(w, eb)) ELSE <<>>), grow)
        \o FlatMap(LAMBDA k : M("block_truncate", <<k - 1>>)
                              \o FlatMap(LAMBDA v : M("block_resize", <<k - 1, v>>), Values(w)), Sorted(1 .. BlockLen(n, w) + 3))

\* get_random and set_random: every element width and offset, indices up to
\* the end.  (Between the last element and the end of the last block the
\* library may go either way: left out.)
RandOps(n, w) ==
    FlatMap(LAMBDA c :
        FlatMap(LAMBDA o1 :
            LET o == o1 - 1
                room == IF c = 0 THEN 2 ELSE (n - o) \div c
                js == Sorted({j \in {0, 1, room - 1, room \div 2} : j >= 0 /\ (c = 0 \/ j < room)})
            IN  FlatMap(LAMBDA j : R("get_random", <<o, c, j>>)
                                   \o FlatMap(LAMBDA v : M("set_random", <<o, c, j, v>>),
                                              IF c = 0 THEN <<Zeros(w)>> ELSE <<Take(Ones1(w), c) \o Zeros(w - c), Take(Irregular(w, 2), c) \o Zeros(w - c)>>
                                                                         \o (IF c < w THEN <<Zeros(c) \o <<1>> \o Zeros(w - c - 1)>> ELSE <<>>)), js)
                \o (IF c = 0 THEN <<>> ELSE R("get_random", <<o, c, ((BlockLen(n, w) * w) \div c) + 1>>)
                      \o RX("get_random", <<o, c, Far>>, <<"", "", "18446744073709551615">>) \o RX("get_random", <<o, c, Far>>, <<"", "", "9223372036854775808">>)),
            IF w <= 8 THEN Sorted(1 .. n + 1) ELSE Sorted({p \in {1, 2, w, w + 1, w + 2, n, n + 1} : p <= n + 1 /\ p >= 1})),
        IF w <= 8 THEN [c \in 1..w + 1 |-> c - 1] ELSE <<1, 7, w - 1, w>>)
    \o R("get_random", <<0, w + 1, 0>>) \o R("get_random", <<0, 200, 0>>)

ElemWidths(w) == IF w = 8 THEN <<1, 3, 5, 7, 8>> \o (IF Deep THEN <<2, 4, 6>> ELSE <<>>) ELSE <<1, 7, (33 % w) + 1, w - 1, w>>

(***************************************************************************)
(* Windows.                                                                *)
(***************************************************************************)
InWindow(len, w) ==
    LET nb == BlockLen(len, w)
        last == IF len = 0 THEN 0 ELSE len - 1
    IN  R("slen", <<>>) \o R("get_bit", <<0>>) \o R("get_bit", <<last>>) \o R("get_bit", <<len>>)
        \o R("get_bits", <<0, Min(len, w)>>) \o R("get_bits", <<len, 0>>) \o R("get_bits", <<len, 1>>)
        \o R("get_bits", <<len \div 2, Min(w, len - len \div 2)>>) \o R("get_bits", <<len \div 2, Min(w, len - len \div 2) + 1>>)
        \o FlatMap(LAMBDA k : R("get_block", <<k - 1>>), Sorted(1 .. nb + 1))
        \o M("set_bit", <<last, 0>>) \o M("set_bit", <<0, 0>>) \o M("set_bit", <<len, 1>>)
        \o M("set_bits", <<len \div 2, Min(w, len - len \div 2), Irregular(w, 3)>>)
        \o M("set_bits", <<len \div 2, Min(w, len - len \div 2) + 1, Zeros(w)>>)
        \o M("set_bits", <<0, Min(len, w), Zeros(w)>>)
        \o FlatMap(LAMBDA k : M("set_block", <<k - 1, Zeros(w)>>), Sorted(1 .. nb + 1))

RangesOf(n, w) ==       \* every range of n positions, and those just past it
    LET ps == Places(n, w)
    IN  FlatMap(LAMBDA s : FlatMap(LAMBDA e : IF s <= e THEN << <<3, s, e>> >> ELSE <<>>, ps), ps)
        \o FlatMap(LAMBDA p : << <<1, 0, p>> >> \o (IF p <= n THEN << <<2, p, 0>> >> ELSE <<>>), ps)
        \o << <<0, 0, 0>> >>

Windowed(n, w) ==
    FlatMap(LAMBDA g :
        LET e == IF g[1] \in {1, 3} THEN g[3] ELSE n
            s == IF g[1] \in {2, 3} THEN g[2] ELSE 0
            len == e - s
        IN  IF e > n THEN Via(<<g>>, R("slen", <<>>)) \o Via(<<g>>, M("set_bit", <<0, 1>>))
            ELSE Via(<<g>>, InWindow(len, w))
                 \o (IF g[1] # 3 \/ len = 0 THEN <<>>
                     ELSE LET h == <<3, 1, len>> IN Via(<<g, h>>, InWindow(len - 1, w)) \o Via(<<g, <<3, 0, len + 1>> >>, R("slen", <<>>))),
        RangesOf(n, w))

(***************************************************************************)
(* Iterators: every sequence of moves, and then one way to finish.         *)
(***************************************************************************)
Moves(l) == <<"n", "b", "n0", "n1", "nl", "nx", "b0", "b1", "bl", "c">>
MoveOp(m, l, r) ==
    CASE m = "n"  -> [op |-> "it_next", a |-> <<1>>, m |-> 0]
      [] m = "b"  -> [op |-> "it_back", a |-> <<1>>, m |-> 0]
      [] m = "n0" -> [op |-> "it_nth", a |-> <<1, 0>>, m |-> 0]
      [] m = "n1" -> [op |-> "it_nth", a |-> <<1, 1>>, m |-> 0]
      [] m = "nl" -> [op |-> "it_nth", a |-> <<1, l>>, m |-> 0]
      [] m = "nx" -> [op |-> "it_nth", a |-> <<1, Far>>, ax |-> <<"", "18446744073709551615">>, m |-> 0]
      [] m = "b0" -> [op |-> "it_nth_back", a |-> <<1, 0>>, m |-> 0]
      [] m = "b1" -> [op |-> "it_nth_back", a |-> <<1, 1>>, m |-> 0]
      [] m = "bl" -> [op |-> "it_nth_back", a |-> <<1, l>>, m |-> 0]
      [] m = "c"  -> [op |-> "it_clone", a |-> <<1, 2>>, m |-> 0]
Finish(k) == <<[op |-> "it_hint", a |-> <<1>>, m |-> 0], [op |-> "it_len", a |-> <<1>>, m |-> 0],
               [op |-> (CASE k % 5 = 0 -> "it_collect" [] k % 5 = 1 -> "it_rev" [] k % 5 = 2 -> "it_count" [] k % 5 = 3 -> "it_last" [] OTHER -> "it_next"), a |-> <<1>>, m |-> 0]>>
Walk(l, d) ==           \* d moves, all of them
    LET ms == Moves(l)  k == Len(ms)
    IN  FlattenSeq([x \in 1 .. k ^ d |->
            LET mv(q) == ms[(((x - 1) \div (k ^ (q - 1))) % k) + 1]
            IN  <<[op |-> "it_new", a |-> <<1>>, m |-> 0, into |-> x % 2]>>
                \o [q \in 1..d |-> MoveOp(mv(q), l, 1)]
                \o (IF mv(1) = "c" THEN <<[op |-> "it_collect", a |-> <<2>>, m |-> 0]>> ELSE <<>>)
                \o Finish(x + l)])

\* Every other way through what is left after a few moves, for numbers k and items v
Hows == <<"fold", "for_each", "rfold", "step", "skip", "rskip", "max", "min", "sorted", "cmp", "eq", "partition",
          "reduce", "ties", "order", "cycle", "zip", "rstep", "vec", "chain", "skip_while", "find_map", "take_while", "try_each",
          "take", "rtake", "try_fold", "try_rfold", "all", "any", "find", "position", "rfind", "rposition">>
Starts(l) == << <<>>, <<"n">>, <<"b">>, <<"n", "b">>, <<"n1", "b1">>, <<"nl">> >>
TakesK == {"order", "cycle", "zip", "rstep", "chain", "step", "skip", "rskip", "cmp", "eq", "take", "rtake", "try_fold", "try_rfold"}
TakesV == {"skip_while", "find_map", "take_while", "try_each", "partition", "all", "any", "find", "position", "rfind", "rposition"}
Uses(l, vs) ==
    FlatMap(LAMBDA ms : FlatMap(LAMBDA how : FlatMap(LAMBDA k : FlatMap(LAMBDA v :
        <<[op |-> "it_new", a |-> <<1>>, m |-> 0, into |-> k % 2]>>
        \o [q \in 1..Len(ms) |-> MoveOp(ms[q], l, 1)]
        \o <<[op |-> "it_use", how |-> how, a |-> <<1, k, v>>, m |-> 0]>>
        \o (IF how \in {"find_map", "take_while", "try_each", "take", "rtake", "try_fold", "try_rfold", "all", "any", "find", "position", "rfind", "rposition"}
            THEN <<[op |-> "it_len", a |-> <<1>>, m |-> 0], [op |-> "it_next", a |-> <<1>>, m |-> 0], [op |-> "it_back", a |-> <<1>>, m |-> 0], [op |-> "it_hint", a |-> <<1>>, m |-> 0]>> ELSE <<>>),
        IF how \in TakesV THEN vs ELSE <<vs[1]>>), IF how \in TakesK THEN Sorted({0, 1, 2, l - 1, l, l + 1} \cap Nat) ELSE <<0>>), Hows), Starts(l))

(***************************************************************************)
(* Cases.                                                                  *)
(***************************************************************************)
Case(k, w, eb, b, ops) == <<[k |-> k, w |-> w, eb |-> eb, b |-> b, ops |-> ops]>>

BvCases(OpsOf(_, _)) ==
    FlatMap(LAMBDA w : FlatMap(LAMBDA n : FlatMap(LAMBDA b : Case("bv", w, 1, b, OpsOf(n, w)), Contents(n)), Lengths(w)), Widths)

IvLens(w, eb) == IF w = 8 THEN <<0, 1, 2, 3, 5>> \o (IF Deep THEN <<4, 6, 7, 8, 9, 11>> ELSE <<>>)
                 ELSE Sorted({0, 1, 2, w \div eb, w \div eb + 1})

Kinds == <<"blocks", "bools", "obits", "oblk", "prim", "iv">>
KindLens(k, w) ==
    CASE k = "prim" -> <<w>>
      [] k = "blocks" -> <<0, w, 2 * w>>
      [] OTHER -> IF w = 8 THEN <<0, 1, 7, 8, 9, 15, 16, 17>> ELSE <<w - 1, w + 1, 2 * w>>

Cases ==
    CASE Gen = "C01" -> BvCases(LAMBDA n, w : GrowBv(n, w))
                        \o FlatMap(LAMBDA n : FlatMap(LAMBDA b : Case("bv", 8, 1, b, Pairs(n, 8)), Contents(n)), IF Deep THEN Lengths(8) ELSE <<0, 1, 7, 8, 9, 16>>)
                        \o FlatMap(LAMBDA n : Case("bv", 64, 1, Irregular(n, 1), Pairs(n, 64)), IF Deep THEN Lengths(64) ELSE <<0, 63, 64, 65>>)
      [] Gen = "C02" ->
           FlatMap(LAMBDA w : FlatMap(LAMBDA eb : FlatMap(LAMBDA l :
                FlatMap(LAMBDA b : Case("iv", w, eb, b, IvOps(l, w, eb) \o (IF l * eb <= 24 \/ Deep THEN RandOps(l * eb, w) ELSE <<>>)), Contents(l * eb)),
                IvLens(w, eb)), ElemWidths(w)), Widths)
      [] Gen = "C04" ->
           FlatMap(LAMBDA n : FlatMap(LAMBDA b : Case("bv", 8, 1, b, ReadsAt(n, 8) \o WritesAt(n, 8)), Contents(n)), IF Deep THEN Lengths(8) ELSE <<0, 1, 7, 8, 9, 16, 17>>)
           \o FlatMap(LAMBDA n : Case("bv", 64, 1, Irregular(n, 1), ReadsAt(n, 64) \o WritesAt(n, 64)), <<63, 64, 65, 130>>)
           \o FlatMap(LAMBDA k : FlatMap(LAMBDA w : FlatMap(LAMBDA n :
                Case(k, w, IF k = "iv" THEN 1 ELSE 1, Irregular(n, 1), ReadsAt(n, w) \o WritesAt(n, w)),
                KindLens(k, w)), IF k = "bools" THEN <<8>> ELSE <<8, 64>>), Kinds)
      [] Gen = "C12" ->
           FlatMap(LAMBDA w : FlatMap(LAMBDA n : Case("bv", w, 1, Irregular(n, 1), FarOps(n, w)), Lengths(w)), <<8, 16, 32, 64>>)
           \o FlatMap(LAMBDA k : FlatMap(LAMBDA w : FlatMap(LAMBDA n :
                Case(k, w, 1, Irregular(n, 1), FarOps(n, w)), KindLens(k, w)), IF k = "bools" THEN <<8>> ELSE <<8, 64>>), Kinds)
      [] Gen = "C05" ->
           FlatMap(LAMBDA n : FlatMap(LAMBDA k : Case(k, 8, 1, IF k = "bv" THEN Ones1(n) ELSE Irregular(n, 1), Windowed(n, 8)),
                   IF Deep THEN <<"bv", "oblk", "bools", "obits">> ELSE IF n = 9 THEN <<"bools", "oblk">> ELSE <<"bv">>),
                   IF Deep THEN <<0, 1, 2, 5, 8, 9, 12, 16, 17, 20>> ELSE <<0, 1, 9, 17>>)
           \o (IF Deep THEN FlatMap(LAMBDA n : Case("bv", 64, 1, Irregular(n, 1), Windowed(n, 64)), <<64, 65, 130>>) ELSE <<>>)
      [] Gen = "C06" ->
           FlatMap(LAMBDA l : Case("bv", 8, 1, Irregular(l, 1), Walk(l, IF Deep THEN 4 ELSE 3)), <<0, 1, 2, 3, 9>>)
           \o FlatMap(LAMBDA l : FlatMap(LAMBDA b : Case("bv", 8, 1, b, Uses(l, << <<0>>, <<1>> >>)), << Irregular(l, 1), Rep(0, l), Rep(1, l)>>), IF Deep THEN <<0, 1, 2, 3, 7, 8, 9, 16, 17>> ELSE <<0, 1, 3, 9>>)
           \o FlatMap(LAMBDA l : Case("iv", 8, 3, Irregular(3 * l, 1), Uses(l, << <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 1, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 1, 0, 0, 0, 0>>, Widen(SubSeq(Irregular(3 * l + 3, 1), 1, 3), 8)>>)), IF Deep THEN <<0, 1, 2, 3, 5, 6, 8, 9>> ELSE <<0, 1, 3, 6>>)
           \o FlatMap(LAMBDA l : Case("iv", 64, 64, Irregular(64 * l, 1), Uses(l, <<Irregular(64, 1), Rep(0, 64)>>)), <<1, 3>>)
           \o FlatMap(LAMBDA l : Case("iv", 8, 5, Irregular(5 * l, 1), Walk(l, IF Deep THEN 4 ELSE 3)), <<0, 1, 3, 4>>)

(* One step: all cases are written out. *)
GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
