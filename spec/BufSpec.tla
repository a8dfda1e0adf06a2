------------------------------ MODULE BufSpec ------------------------------
(***************************************************************************)
(* A bit buffer: a cursor on a bit sequence.                               *)
(***************************************************************************)
EXTENDS Bits

VARIABLES
    b,      \* the underlying sequence
    pos,    \* the cursor
    w,      \* block width
    ev      \* last observation: [p, x]; p 0 done, 1 refused (panic), 2 error, 3 end of input

bufVars == <<b, pos, w>>

Done(x)  == ev' = [p |-> 0, x |-> x]
Refuse   == ev' = [p |-> 1, x |-> <<>>] /\ UNCHANGED bufVars
Fail     == ev' = [p |-> 2, x |-> <<>>] /\ UNCHANGED bufVars

Open(bits, width)   == b' = bits /\ pos' = 0 /\ w' = width /\ Done(<<>>)
Append_(bits, width) == b' = bits /\ pos' = Len(bits) /\ w' = width /\ Done(<<>>)

ReadBit ==
    IF pos < Len(b)
    THEN pos' = pos + 1 /\ UNCHANGED <<b, w>> /\ Done(<<BitAt(b, pos)>>)
    ELSE UNCHANGED bufVars /\ Done(<<>>)

WriteBit(x) ==
    /\ b' = IF pos < Len(b) THEN PutBit(b, pos, x) ELSE Append(b, x)
    /\ pos' = pos + 1
    /\ UNCHANGED w
    /\ Done(<<>>)

Seek(p) ==
    IF p <= Len(b) THEN pos' = p /\ UNCHANGED <<b, w>> /\ Done(<<>>)
    ELSE Fail

\* Many bits at the cursor: a codeword, an integer.  What is there is
\* overwritten, and what does not fit extends the sequence.
Over(s, q, d) == Take(s, q) \o d \o Drop(s, q + Len(d))
WriteBits(d) == b' = Over(b, pos, d) /\ pos' = pos + Len(d) /\ UNCHANGED w /\ Done(<<>>)

\* The low n bits of the block v, least or most significant first
Turned(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
WriteInt(n, be, v) == WriteBits(IF be THEN Turned(Take(v, n)) ELSE Take(v, n))

\* n bits as a number of tw bits.  Cut off, the call may have consumed some.
ReadInt(n, be, tw) ==
    IF n <= Len(b) - pos
    THEN pos' = pos + n /\ UNCHANGED <<b, w>>
         /\ Done(Widen(IF be THEN Turned(Span(b, pos, n)) ELSE Span(b, pos, n), tw))
    ELSE IF pos = Len(b) THEN UNCHANGED bufVars /\ ev' = [p |-> 3, x |-> <<>>]
    ELSE pos' \in pos..Len(b) /\ UNCHANGED <<b, w>> /\ ev' = [p |-> 2, x |-> <<>>]

\* Direct access to the bits, as of any bit vector
Look(ok, x) == IF ok THEN UNCHANGED bufVars /\ Done(x) ELSE Refuse
Put(ok, c)  == IF ok THEN b' = c /\ UNCHANGED <<pos, w>> /\ Done(<<>>) ELSE Refuse

GetBit(i)     == IF i < Len(b) THEN Look(TRUE, <<BitAt(b, i)>>) ELSE Refuse
GetBits(s, c) == IF c <= w /\ Fits(s, c, Len(b))
                 THEN Look(TRUE, Widen(Span(b, s, c), w)) ELSE Refuse
GetBlock(k)   == IF k < BlockLen(Len(b), w)
                 THEN Look(TRUE, Span(b, k * w, BlockSize(Len(b), w, k))) ELSE Refuse
SetBit(i, x)  == IF i < Len(b) THEN Put(TRUE, PutBit(b, i, x)) ELSE Refuse
SetBits(s, c, v) == IF c <= w /\ Fits(s, c, Len(b))
                    THEN Put(TRUE, PutSpan(b, s, c, v)) ELSE Refuse
SetBlock(k, v) == IF k < BlockLen(Len(b), w)
                  THEN Put(TRUE, PutSpan(b, k * w, BlockSize(Len(b), w, k), v)) ELSE Refuse

\* Taking the vector out and opening it again for reading / for appending
Reopen   == b' = b /\ pos' = 0 /\ UNCHANGED w /\ Done(<<>>)
Reappend == b' = b /\ pos' = Len(b) /\ UNCHANGED w /\ Done(<<>>)

TypeOK == pos \in 0..Len(b) /\ \A i \in 1..Len(b) : b[i] \in Bit
=============================================================================
