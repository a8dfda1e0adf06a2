-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Natural numbers of any size, for a checker whose own integers end at    *)
(* 2^31 - 1: a number is the tuple of its digits in base 2^15, least       *)
(* significant first, without leading zeros (so zero is <<>> and equality  *)
(* is equality of tuples).                                                 *)
(***************************************************************************)
EXTENDS Bits

Base == 32768

\* Powers of two up to 2^15
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Pow(k) == P2[k + 1]

RECURSIVE WNorm(_)
WNorm(x) == IF x = <<>> THEN <<>>
            ELSE IF x[Len(x)] = 0 THEN WNorm(SubSeq(x, 1, Len(x) - 1)) ELSE x

WD(x, i) == IF i <= Len(x) THEN x[i] ELSE 0     \* digit i, from 1

RECURSIVE WNat(_)
WNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o WNat(n \div Base)

\* The number as a natural: only if below 2^30
WVal(x) == WD(x, 1) + Base * WD(x, 2)
WSmall(x) == Len(x) <= 2

RECURSIVE WAddFrom(_, _, _, _)
WAddFrom(x, y, i, c) ==
    IF i > Len(x) /\ i > Len(y) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == WD(x, i) + WD(y, i) + c
         IN  <<s % Base>> \o WAddFrom(x, y, i + 1, s \div Base)
WAdd(x, y) == WAddFrom(x, y, 1, 0)

\* x - y where y <= x
RECURSIVE WSubFrom(_, _, _, _)
WSubFrom(x, y, i, c) ==
    IF i > Len(x) THEN <<>>
    ELSE LET s == x[i] + Base - WD(y, i) - c
         IN  <<s % Base>> \o WSubFrom(x, y, i + 1, IF s < Base THEN 1 ELSE 0)
WSub(x, y) == WNorm(WSubFrom(x, y, 1, 0))

RECURSIVE WLeqFrom(_, _, _)
WLeqFrom(x, y, i) == IF i = 0 THEN TRUE
                     ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE WLeqFrom(x, y, i - 1)
WLeq(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE WLeqFrom(x, y, Len(x))
WLess(x, y) == ~WLeq(y, x)

\* x times a natural m <= Base
RECURSIVE WMulFrom(_, _, _, _)
WMulFrom(x, m, i, c) ==
    IF i > Len(x) THEN IF c = 0 THEN <<>> ELSE WNat(c)
    ELSE LET s == x[i] * m + c
         IN  <<s % Base>> \o WMulFrom(x, m, i + 1, s \div Base)
WMulSmall(x, m) == WNorm(WMulFrom(x, m, 1, 0))

RECURSIVE WMulAll(_, _, _)
WMulAll(x, y, i) ==
    IF i > Len(y) THEN <<>>
    ELSE LET hi == WMulAll(x, y, i + 1)
         IN  WAdd(WMulSmall(x, y[i]), IF hi = <<>> THEN <<>> ELSE <<0>> \o hi)
WMul(x, y) == WMulAll(x, y, 1)

\* x * 2^n
WShl(x, n) == IF x = <<>> THEN <<>>
              ELSE Rep(0, n \div 15) \o WMulSmall(x, Pow(n % 15))

\* Bits of x, least significant first, exactly n of them
WBits(x, n) == [i \in 1..n |-> (WD(x, (i - 1) \div 15 + 1) \div Pow((i - 1) % 15)) % 2] \o <<>>

\* The number with these bits, least significant first
RECURSIVE WOfBits(_)
WOfBits(b) ==
    IF Len(b) <= 15 THEN WNorm(<<Val(b)>>)
    ELSE WNorm(<<Val(SubSeq(b, 1, 15))>> \o
               LET hi == WOfBits(SubSeq(b, 16, Len(b))) IN hi)

\* Number of bits of x: 0 for 0, else 1 + floor(log2 x)
DigitLen(d) == CHOOSE k \in 0..15 : (k = 0 /\ d = 0) \/ (k > 0 /\ Pow(k - 1) <= d /\ d < Pow(k))
WLen(x) == IF x = <<>> THEN 0 ELSE 15 * (Len(x) - 1) + DigitLen(x[Len(x)])

WFits(x, n) ==                      \* x < 2^n
    LET q == n \div 15
    IN  IF Len(x) # q + 1 THEN Len(x) <= q ELSE x[q + 1] < Pow(n % 15)
\* x * m + c for m below 2^15, c below 2^30
WMulAddSmall(x, m, c) == WNorm(WMulFrom(x, m, 1, c))
WPow2(n) == Rep(0, n \div 15) \o <<Pow(n % 15)>>
WMax(n) == WSub(WPow2(n), <<1>>)    \* 2^n - 1
W1 == <<1>>
=============================================================================
