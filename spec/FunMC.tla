------------------------------- MODULE FunMC -------------------------------
(***************************************************************************)
(* Do the definitions of FunSpec determine their answers?  For every       *)
(* argument up to a bound, exactly one number is a quotient, a rounded     *)
(* quotient, a rounded logarithm; the extractions and updates of a block   *)
(* obey the laws of reading back; selecting inverts counting.              *)
(***************************************************************************)
EXTENDS FunSpec, Integers, TLC

VARIABLES q, r

Init == q = 0 /\ r = 0
Next == (q < 255 /\ q' = q + 1 /\ r' = 0) \/ (r < 255 /\ r' = r + 1 /\ q' = q)
Spec == Init /\ [][Next]_<<q, r>>

Unique(S, P(_)) == Cardinality({x \in S : P(x)}) = 1
Answers(w, ask, S) == Unique(S, LAMBDA v : BlockAsk(w, ask, <<0, WNat(v)>>))

Q == WNat(q)
R == WNat(r)

DivsOk == r = 0 =>
    \A w \in {8, 16} : \A o \in {"div_nbits", "ceil_div_nbits", "checked_div_nbits", "checked_ceil_div_nbits", "mod_nbits", "last_block_bits"} :
        Answers(w, <<o, WNat(3 * q)>>, 0..110)
LogsOk == r = 0 => /\ Answers(8, <<"ceil_lg", Q>>, 0..20)
                   /\ q > 0 => Answers(8, <<"floor_lg", Q>>, 0..20)
\* near the top of 64 bits, too
TopOk == r = 0 => LET big == WSub(WMax(64), WNat(q)) IN
                  /\ Answers(64, <<"ceil_lg", big>>, 0..70) /\ Answers(64, <<"floor_lg", big>>, 0..70)
                  /\ \E k \in 0..255 : BlockAsk(64, <<"div_nbits", big>>, <<0, WSub(WPow2(58), WNat(k))>>)
CeilDivOk == IF r = 0 THEN BlockAsk(8, <<"ceil_div", Q, R>>, <<1>>)
             ELSE LET v == CeilDiv(q, r) IN \A k \in {v - 1, v, v + 1} : k >= 0 => (BlockAsk(8, <<"ceil_div", Q, R>>, <<0, WNat(k)>>) <=> k = v)

\* q a block, r an encoding of a span and a value
S == r % 8
C == (r \div 8) % 9
With(v) == CHOOSE x \in 0..255 : BlockAsk(8, <<"with_bits", Q, WNat(S), WNat(C), v>>, <<0, WNat(x)>>)
SpansOk == r < 72 =>
    IF S + C <= 8
    THEN LET x == With(R) IN
         /\ BlockAsk(8, <<"get_bits", WNat(x), WNat(S), WNat(C)>>, <<0, WOfBits(Take(WBits(R, 8), C))>>)
         /\ \A j \in 0..7 : (j < S \/ j >= S + C) => WBits(WNat(x), 8)[j + 1] = WBits(Q, 8)[j + 1]
    ELSE BlockAsk(8, <<"with_bits", Q, WNat(S), WNat(C), R>>, <<1>>) /\ BlockAsk(8, <<"get_bits", Q, WNat(S), WNat(C)>>, <<1>>)

\* Selecting in a word whose low and high bytes are q and r
Word == WOfBits(WBits(Q, 8) \o Rep(0, 48) \o WBits(R, 8))
SelectOk == (q % 5 = 0) =>
    LET bits == WBits(Word, 64) n == Ones(bits) IN
    /\ \A k \in 0..n - 1 : LET p == SelectOne(bits, k) IN Len(p) = 1 /\ bits[p[1] + 1] = 1 /\ OnesUpTo(bits, p[1]) = k
    /\ SelectOne(bits, n) = <<>> /\ SelectOne(bits, 64) = <<>>
=============================================================================
