------------------------------- MODULE Bits -------------------------------
(***************************************************************************)
(* Bit sequences: the vocabulary of every other module.                    *)
(*                                                                         *)
(* A bit is 0 or 1.  A bit sequence is a tuple of bits whose first element *)
(* is the bit with index 0.  A block of a W-bit block type is a tuple of   *)
(* exactly W bits, least significant bit first, so that block k of a       *)
(* sequence is its k-th run of W bits.  Positions handed to operators are  *)
(* 0-based, as in the library.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Bit == {0, 1}

Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
CeilDiv(n, w) == (n + w - 1) \div w

\* n copies of x
Rep(x, n) == [i \in 1..n |-> x]

\* n copies of the sequence s, by doubling
RECURSIVE RepSeq(_, _)
RepSeq(s, n) ==
    IF n = 0 THEN <<>>
    ELSE IF n = 1 THEN s
    ELSE LET h == RepSeq(s, n \div 2)
         IN  IF n % 2 = 0 THEN h \o h ELSE h \o h \o s

BitAt(b, i) == b[i + 1]

\* First n bits; everything from position i on; c bits from position s
Take(b, n) == SubSeq(b, 1, n)
Drop(b, n) == SubSeq(b, n + 1, Len(b))
Span(b, s, c) == SubSeq(b, s + 1, s + c)

\* b extended with zeros to length n / to a multiple of w
Widen(b, n) == b \o Rep(0, n - Len(b))
Pad(b, w) == b \o Rep(0, CeilDiv(Len(b), w) * w - Len(b))

\* Number of w-bit blocks n bits need, and the number of bits in the last one
BlockLen(n, w) == CeilDiv(n, w)
BlockSize(n, w, k) == Min(w, n - k * w)

\* Does the span [s, s+c) lie within n positions?  (No sum: s and c may be
\* close to the largest integer TLC can represent.)
Fits(s, c, n) == s <= n /\ c <= n - s

\* Replace one bit / c bits from s by the first c bits of v
PutBit(b, i, x) == [b EXCEPT ![i + 1] = x]
PutSpan(b, s, c, v) == Take(b, s) \o Take(v, c) \o Drop(b, s + c)

\* Does a block hold a value that fits in k bits?
FitsIn(v, k) == \A i \in k + 1 .. Len(v) : v[i] = 0

IsZero(v) == \A i \in 1 .. Len(v) : v[i] = 0

\* Ones among positions s .. s+c-1, among the first n bits, altogether
OnesIn(b, s, c) == Cardinality({i \in s + 1 .. s + c : b[i] = 1})
OnesUpTo(b, n) == OnesIn(b, 0, n)
Ones(b) == OnesIn(b, 0, Len(b))

\* Unsigned comparison of two equally long blocks, from the top bit down
RECURSIVE LeqFrom(_, _, _)
LeqFrom(x, y, i) ==
    IF i = 0 THEN TRUE
    ELSE IF x[i] # y[i] THEN x[i] < y[i]
    ELSE LeqFrom(x, y, i - 1)
Leq(x, y) == LeqFrom(x, y, Len(x))

\* Number with the given bits (only for values below 2^31), and back
RECURSIVE ValFrom(_, _)
ValFrom(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + 2 * ValFrom(b, i + 1)
Val(b) == ValFrom(b, 1)

RECURSIVE ToBits(_, _)
ToBits(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o ToBits(v \div 2, n - 1)

\* All bit sequences of length n / of length at most n
BitSeqs(n) == [1..n -> Bit]
BitSeqsUpTo(n) == UNION {BitSeqs(k) : k \in 0..n}

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
