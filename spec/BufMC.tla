------------------------------- MODULE BufMC -------------------------------
(***************************************************************************)
(* Does BufSpec describe a cursor?  Independently of it, a tape is kept as *)
(* a stack of bits left of the head and a stack right of it (Tape): reads  *)
(* and writes move one bit across, a seek moves many.  TLC takes every     *)
(* history over at most MaxLen bits and checks that the tape and the       *)
(* indexed sequence of BufSpec stay the same thing, that every answer is   *)
(* the one the tape gives, and that a failed step changes neither.         *)
(***************************************************************************)
EXTENDS BufSpec, SequencesExt, TLC

CONSTANT MaxLen

VARIABLES left, right, says     \* left: last is next to the head; right: first is

vars == <<b, pos, w, ev, left, right, says>>

Init == b = <<>> /\ pos = 0 /\ w = 3 /\ ev = [p |-> 0, x |-> <<>>] /\ left = <<>> /\ right = <<>> /\ says = <<>>

Ok(x) == says' = [p |-> 0, x |-> x]
Stay == UNCHANGED <<left, right>>

TRead == IF right = <<>> THEN Stay /\ Ok(<<>>)
         ELSE left' = Append(left, Head(right)) /\ right' = Tail(right) /\ Ok(<<Head(right)>>)
TWrite(x) == left' = Append(left, x) /\ right' = (IF right = <<>> THEN <<>> ELSE Tail(right)) /\ Ok(<<>>)
\* Two bits at once, by two steps; as a number; too few left
TWrite2(x, y) == LET r1 == IF right = <<>> THEN <<>> ELSE Tail(right) IN
                 left' = left \o <<x, y>> /\ right' = (IF r1 = <<>> THEN <<>> ELSE Tail(r1)) /\ Ok(<<>>)
TRead2(be) == IF Len(right) >= 2
              THEN /\ left' = left \o <<right[1], right[2]>> /\ right' = Tail(Tail(right))
                   /\ Ok(IF be THEN <<right[2], right[1], 0>> ELSE <<right[1], right[2], 0>>)
              ELSE IF right = <<>> THEN Stay /\ says' = [p |-> 3, x |-> <<>>]
              ELSE /\ says' = [p |-> 2, x |-> <<>>]
                   /\ left' = SubSeq(left \o right, 1, pos') /\ right' = SubSeq(left \o right, pos' + 1, Len(left) + Len(right))
TSeek(p) == LET t == left \o right IN
            IF p > Len(t) THEN Stay /\ says' = [p |-> 2, x |-> <<>>]
            ELSE left' = SubSeq(t, 1, p) /\ right' = SubSeq(t, p + 1, Len(t)) /\ Ok(<<>>)
TPut(i, x) == LET t == left \o right IN
              IF i >= Len(t) THEN Stay /\ says' = [p |-> 1, x |-> <<>>]
              ELSE /\ left' = [j \in 1..Len(left) |-> IF j = i + 1 THEN x ELSE left[j]]
                   /\ right' = [j \in 1..Len(right) |-> IF j + Len(left) = i + 1 THEN x ELSE right[j]]
                   /\ Ok(<<>>)

Next ==
    \/ ReadBit /\ TRead
    \/ \E x \in Bit : (pos < Len(b) \/ Len(b) < MaxLen) /\ WriteBit(x) /\ TWrite(x)
    \/ \E x, y \in Bit, be \in BOOLEAN : (pos + 2 <= Len(b) \/ Len(b) + 2 <= MaxLen) /\ WriteInt(2, be, <<x, y>>) /\ (IF be THEN TWrite2(y, x) ELSE TWrite2(x, y))
    \/ \E be \in BOOLEAN : ReadInt(2, be, 3) /\ TRead2(be)
    \/ \E p \in 0 .. Len(b) + 1 : Seek(p) /\ TSeek(p)
    \/ \E i \in 0 .. Len(b), x \in Bit : SetBit(i, x) /\ TPut(i, x)
    \/ Reopen /\ TSeek(0)
    \/ Reappend /\ TSeek(Len(left \o right))

Spec == Init /\ [][Next]_vars

Same == b = left \o right /\ pos = Len(left)
Answer == says = <<>> \/ ev = says
Views ==    \* every span and block of it is what its bits say
    \A s \in 0..Len(b), c \in 0..w : Fits(s, c, Len(b)) => \A i \in 1..c : Span(b, s, c)[i] = BitAt(b, s + i - 1)
=============================================================================
