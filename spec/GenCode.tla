------------------------------ MODULE GenCode ------------------------------
(***************************************************************************)
(* Examinations of the real codes and integers, enumerated from the        *)
(* specification: for each code, every value that matters (all small ones, *)
(* and both sides of every power of two, of every Fibonacci number and of  *)
(* every power of a comma base), each to be written and read back whole,   *)
(* cut short anywhere, with any one bit inverted, and with the stream      *)
(* failing at any point; every bit string of up to MaxRaw bits into every  *)
(* decoder; and every integer type at every width in either order.         *)
(***************************************************************************)
EXTENDS CodeSpec, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

VARIABLE i

Gen == IOEnv.GEN
Deep == IOEnv.TIER = "thorough"
FlatMap(Op(_), s) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])

U == <<"unary">>  O == <<"omega">>  F == <<"fib">>
C(n) == <<"comma", n>>  X(n) == <<"fixed", n>>
E(c) == <<"elias", c>>  L(c) == <<"lift0", c>>
Gamma == E(U)  Delta == E(L(Gamma))

Main == <<U, Gamma, Delta, O, F, C(2), C(3), C(4), C(8), C(31), C(32), C(33), C(63), L(U), L(Gamma), L(Delta), L(O), L(F), L(C(2))>>
Others == <<C(5), C(13), C(16), C(62), E(C(2)), E(C(3)), E(F), E(L(F)), E(O), E(L(O)), E(Gamma), E(Delta), E(L(Delta)), E(L(U)),
            L(L(Gamma)), L(L(U)), L(E(C(2))), X(7), X(64), E(X(6)), E(X(7)), E(X(64)), L(X(64)), L(E(X(7)))>>
Codes == Main \o Others

Unaryish(c) == c \in {U, L(U), L(L(U))}
\* elias(lift0(unary)) and the like count zeros, but only up to 64

Near(x) == <<x, WAdd(x, W1)>> \o (IF x = <<>> THEN <<>> ELSE <<WSub(x, W1)>>)
Fitting(xs) == SelectSeq(xs, LAMBDA x : InWord(x))
Pow2(k) == WShl(W1, k)
Small(n) == [j \in 1..n |-> WNat(j - 1)]
RECURSIVE PowersFrom(_, _)
PowersFrom(n, x) == IF ~InWord(x) THEN <<x>> ELSE <<x>> \o PowersFrom(n, WSub(WShl(x, n), x))
Powers(n) == PowersFrom(n, W1)      \* of 2^n - 1

\* Digits of 2^64 - 1 pulled apart: a value with few and one with many ones
Mixed == <<WOfBits([j \in 1..64 |-> IF j % 3 = 0 THEN 1 ELSE 0]), WOfBits([j \in 1..64 |-> IF j \in {64, 17, 3} THEN 1 ELSE 0])>>

Values(c) ==
    IF Unaryish(c) THEN Small(IF Deep THEN 90 ELSE 34) \o (IF Deep THEN <<WNat(255), WNat(256), WNat(300)>> ELSE <<WNat(130)>>)
    ELSE LET main == \E j \in 1..Len(Main) : Main[j] = c
             step == IF Deep THEN 1 ELSE IF main THEN 8 ELSE 16
             ks == [k \in 1 .. 64 \div step |-> 64 - step * (k - 1)]
         IN  Small(IF Deep THEN 130 ELSE IF main THEN 8 ELSE 5)
             \o FlatMap(LAMBDA k : IF Deep THEN Near(Pow2(k)) ELSE <<Pow2(k), WSub(Pow2(k), W1)>>, SelectSeq(ks, LAMBDA k : k < 64 /\ k > 3))
             \o <<MaxValue, WSub(MaxValue, W1)>> \o Mixed
             \o (IF c \in {F, L(F)} THEN FlatMap(LAMBDA k : Near(FibW[k]), SelectSeq([k \in 1..NFib |-> k], LAMBDA k : Deep \/ k % 16 = 0 \/ k > NFib - 2)) ELSE <<>>)
             \o (IF c[1] = "comma" THEN FlatMap(LAMBDA x : Near(x), SelectSeq(Powers(c[2]), LAMBDA x : IF Deep THEN WLen(x) > 4 ELSE WLen(x) \in {24, 34, 44, 54} \cup 61..65)) ELSE <<>>)

Exams(cs) == FlatMap(LAMBDA c : FlatMap(LAMBDA v : <<[op |-> "exam", c |-> c, v |-> v]>>, Fitting(Values(c))), cs)

\* Everything one after the other on one stream, and back
Chains == FlatMap(LAMBDA c : LET vs == SelectSeq(Fitting(Values(c)), LAMBDA v : Rep_(c, v) = "yes") IN <<[op |-> "chain", c |-> c, vs |-> vs]>>, Codes)

AllBits(n) == [x \in 1 .. 2^n |-> ToBits(x - 1, n) \o <<>>]
Probes(cs, max) ==
    FlatMap(LAMBDA c : FlatMap(LAMBDA n : FlatMap(LAMBDA s : <<[op |-> "probe", c |-> c, d |-> s]>>, AllBits(n - 1)), [n \in 1 .. max + 1 |-> n]), cs)

\* Streams around the limits: runs of one bit, then a tail
RunsOf(cs) == FlatMap(LAMBDA c : FlatMap(LAMBDA n : FlatMap(LAMBDA x : FlatMap(LAMBDA t :
            <<[op |-> "probe", c |-> c, d |-> (Rep(x, n) \o t) \o <<>>]>>,
            << <<>>, <<1 - x>>, <<1 - x>> \o Rep(0, n), <<1 - x>> \o Rep(1, n), <<1 - x>> \o Rep(x, n - 1), <<1 - x, 1 - x>> >>), <<0, 1>>),
        IF Deep THEN [n \in 1..140 |-> n] ELSE <<31, 32, 33, 62, 63, 64, 65, 66, 90, 91, 92, 93, 127, 128, 129>>), cs)

Types == << <<"u8", 8>>, <<"u16", 16>>, <<"u32", 32>>, <<"u64", 64>>, <<"usize", 64>>, <<"i8", 8>>, <<"i16", 16>>, <<"i32", 32>>, <<"i64", 64>>, <<"isize", 64>> >>
IntValues(w) == << [j \in 1..w |-> 1] \o <<>>, [j \in 1..w |-> IF (j * j + j) % 5 < 2 THEN 1 ELSE 0] \o <<>> >>
                \o (IF Deep THEN << [j \in 1..w |-> 0] \o <<>>, [j \in 1..w |-> j % 2] \o <<>>, [j \in 1..w |-> IF j = w THEN 1 ELSE 0] \o <<>> >> ELSE <<>>)
IntExams ==
    FlatMap(LAMBDA t : FlatMap(LAMBDA n : FlatMap(LAMBDA be : FlatMap(LAMBDA v :
        <<[op |-> "iexam", t |-> t[1], w |-> t[2], n |-> n - 1, be |-> be, v |-> v]>>,
        IntValues(t[2])), <<0, 1>>), [n \in 1 .. t[2] + 1 |-> n]), Types)

Cases ==
    CASE Gen = "C10" -> Exams(Codes) \o Chains
      [] Gen = "C11" -> Probes(Main, IF Deep THEN 12 ELSE 7) \o Probes(Others, IF Deep THEN 9 ELSE 6) \o RunsOf(Main)
      [] Gen = "C18" -> IntExams

GenInit == i = 0 /\ b = <<>> /\ rd = 0
GenNext == i = 0 /\ i' = 1 /\ UNCHANGED codeVars /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_<<i, b, rd>>
=============================================================================
