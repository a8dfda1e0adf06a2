------------------------------- MODULE GenLib -------------------------------
(* What the enumerating modules share. *)
EXTENDS Bits, Integers, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Gen == IOEnv.GEN
Deep == IOEnv.TIER = "thorough"

Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
FlatMap(Op(_), s) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])
Each(Op(_), s) == [j \in 1..Len(s) |-> Op(s[j])] \o <<>>
Upto(n) == [j \in 1..n |-> j] \o <<>>

Irregular(n, k) == [j \in 1..n |-> IF ((j * j + 3 * (j \div 3) + k * j + k) % 5) \in {0, 1} THEN 1 ELSE 0] \o <<>>
Ones1(n) == Rep(1, n) \o <<>>
Zeros(n) == Rep(0, n) \o <<>>

\* Numbers far beyond every length: as TLC sees them, and exactly
Far == 2147483647
FarTexts == <<"18446744073709551615", "18446744073709551608", "9223372036854775808", "4294967296">>

\* Every word of n letters of the alphabet s
Words(s, n) ==
    [x \in 1 .. Len(s) ^ n |-> [q \in 1..n |-> s[(((x - 1) \div (Len(s) ^ (q - 1))) % Len(s)) + 1]] \o <<>>]
=============================================================================
