------------------------------ MODULE CodeSpec ------------------------------
(***************************************************************************)
(* Bit streams carrying integers and universal codes.                      *)
(*                                                                         *)
(* State: the bits ever written and how many have been read.  A code is a  *)
(* term: <<"unary">>, <<"elias", header>>, <<"omega">>, <<"fib">>,         *)
(* <<"comma", n>>, <<"lift0", code>>, and <<"fixed", n>> (n bits, least    *)
(* significant first: a code a user of the library might define).  Dec     *)
(* gives the meaning of a term: what the bits from a position on denote.   *)
(* A codeword of v is what Dec reads as v, in its only canonical form;     *)
(* CodeMC checks, for a scaled-down word, that there is exactly one for    *)
(* every value a code supports, that none is a prefix of another, and that *)
(* it is the one the textbook construction gives.                          *)
(***************************************************************************)
EXTENDS Wide, Integers

CONSTANT WB         \* bits of a decoded value: 64 (smaller in CodeMC)

VARIABLES
    b,      \* every bit written
    rd      \* how many of them have been read

codeVars == <<b, rd>>

MaxValue == WMax(WB)
WbW == WNat(WB)
InWord(x) == WFits(x, WB)

Ok(v, i)  == [k |-> "ok", v |-> v, i |-> i]
\* The value exceeds what some implementations handle: an error is as good
Maybe(v, i) == [k |-> "maybe", v |-> v, i |-> i]
Eof(i)    == [k |-> "eof", v |-> <<>>, i |-> i]     \* nothing there at all
Short(i)  == [k |-> "err", v |-> <<>>, i |-> i]     \* ends within the code
TooBig(i) == [k |-> "err", v |-> <<>>, i |-> i]     \* above 2^WB - 1
Bad(i)    == [k |-> "err", v |-> <<>>, i |-> i]     \* denotes nothing

\* First position >= i holding a one; the length if there is none
RECURSIVE FirstOne(_, _)
FirstOne(s, i) == IF i >= Len(s) THEN Len(s)
                  ELSE IF s[i + 1] = 1 THEN i ELSE FirstOne(s, i + 1)

Have(s, i, n) == i + n <= Len(s)
LsbFirst(s, i, n) == WOfBits(Span(s, i, n))
MsbFirst(s, i, n) == WOfBits(Reverse(Span(s, i, n)))

DecUnary(s, i) ==
    LET j == FirstOne(s, i)
    IN  IF j < Len(s) THEN Ok(WNat(j - i), j + 1)
        ELSE IF i = Len(s) THEN Eof(i) ELSE Short(j)

\* Groups: N = 1; while the next bit is 1, it and the next N bits are N.
RECURSIVE DecOmega(_, _, _, _)
DecOmega(s, i0, i, n) ==
    IF i >= Len(s) THEN IF i = i0 THEN Eof(i) ELSE Short(i)
    ELSE IF s[i + 1] = 0 THEN Ok(n, i + 1)
    ELSE IF ~WLess(n, WbW) THEN TooBig(i + 1)
    ELSE LET c == WVal(n)
         IN  IF ~Have(s, i + 1, c) THEN Short(Len(s))
             ELSE DecOmega(s, i0, i + 1 + c, MsbFirst(s, i, c + 1))

\* Weights of the Fibonacci code: 1, 2, 3, 5, 8, ... up to the first above
\* the largest value
RECURSIVE FibFrom(_, _)
FibFrom(x, y) == IF ~InWord(y) THEN <<y>> ELSE <<y>> \o FibFrom(y, WAdd(x, y))
FibW == FibFrom(<<1>>, <<1>>)
NFib == Len(FibW) - 1               \* how many fit

RECURSIVE DecFib(_, _, _, _, _)
DecFib(s, i0, i, v, prev) ==
    IF i >= Len(s) THEN IF i = i0 THEN Eof(i) ELSE Short(i)
    ELSE IF s[i + 1] = 1 /\ prev = 1
         THEN IF ~InWord(v) THEN TooBig(i + 1)
              ELSE IF i - i0 >= NFib THEN Maybe(v, i + 1)
              ELSE Ok(v, i + 1)
    ELSE IF i - i0 > NFib THEN TooBig(i)
    ELSE DecFib(s, i0, i + 1,
                IF s[i + 1] = 1 THEN WAdd(v, FibW[i - i0 + 1]) ELSE v, s[i + 1])

\* Digits of n bits in base 2^n - 1, most significant first, ended by the
\* digit 2^n - 1
RECURSIVE DecComma(_, _, _, _, _)
DecComma(s, n, i0, i, v) ==
    IF ~Have(s, i, n) THEN IF i0 = Len(s) THEN Eof(i) ELSE Short(Len(s))
    ELSE IF \A j \in 1..n : s[i + j] = 1 THEN Ok(v, i + n)
    ELSE LET v2 == IF n < 15 THEN WMulAddSmall(v, Pow(n) - 1, Val(Span(s, i, n)))
                    ELSE WAdd(WSub(WShl(v, n), v), LsbFirst(s, i, n))
         IN  IF InWord(v2) THEN DecComma(s, n, i0, i + n, v2) ELSE TooBig(i + n)

RECURSIVE Dec(_, _, _)
Dec(code, s, i) ==
    CASE code[1] = "unary" -> DecUnary(s, i)
      [] code[1] = "omega" -> DecOmega(s, i, i, <<1>>)
      [] code[1] = "fib"   -> DecFib(s, i, i, <<>>, 0)
      [] code[1] = "comma" -> DecComma(s, code[2], i, i, <<>>)
      [] code[1] = "fixed" ->
            IF code[2] = 0 THEN Ok(<<>>, i)
            ELSE IF i >= Len(s) THEN Eof(i)
            ELSE IF ~Have(s, i, code[2]) THEN Short(Len(s))
            ELSE Ok(LsbFirst(s, i, code[2]), i + code[2])
      [] code[1] = "elias" ->
            LET h == Dec(code[2], s, i)
            IN  IF h.k \in {"eof", "err"} THEN h
                ELSE IF ~WLess(h.v, WbW) THEN TooBig(h.i)
                ELSE LET c == WVal(h.v)
                     IN  IF ~Have(s, h.i, c) THEN Short(Len(s))
                         ELSE [h EXCEPT !.v = WOfBits(Append(Span(s, h.i, c), 1)), !.i = h.i + c]
      [] code[1] = "lift0" ->
            LET h == Dec(code[2], s, i)
            IN  IF h.k \in {"eof", "err"} THEN h
                ELSE IF h.v = <<>> THEN Bad(h.i)
                ELSE [h EXCEPT !.v = WSub(h.v, W1)]

\* Is the whole of s a codeword in canonical form?  (Comma: no leading zero
\* digits.)
RECURSIVE Canonical(_, _)
Canonical(code, s) ==
    CASE code[1] = "comma" -> ~(Len(s) > code[2] /\ IsZero(Take(s, code[2])))
      [] code[1] = "elias" -> Canonical(code[2], Take(s, Dec(code[2], s, 0).i))
      [] code[1] = "lift0" -> Canonical(code[2], s)
      [] OTHER -> TRUE

Encodes(code, s, v) ==
    LET d == Dec(code, s, 0)
    IN  d.k \in {"ok", "maybe"} /\ d.v = v /\ d.i = Len(s) /\ Canonical(code, s)

\* Can the code represent v?  "maybe": an implementation may refuse it.
RECURSIVE Rep_(_, _)
Rep_(code, v) ==
    CASE code[1] \in {"unary", "comma"} -> "yes"
      [] code[1] = "omega" -> IF v = <<>> THEN "no" ELSE "yes"
      [] code[1] = "fib"   -> IF v = <<>> THEN "no"
                              ELSE IF WLess(v, FibW[NFib]) THEN "yes" ELSE "maybe"
      [] code[1] = "fixed" -> IF WLen(v) <= code[2] THEN "yes" ELSE "no"
      [] code[1] = "elias" -> IF v = <<>> THEN "no" ELSE Rep_(code[2], WNat(WLen(v) - 1))
      [] code[1] = "lift0" -> IF v = MaxValue THEN "no" ELSE Rep_(code[2], WAdd(v, W1))

(***************************************************************************)
(* Actions.  A sink or source may fail: f is the number of single-bit      *)
(* operations it performs before it does (none if f < 0).  What the caller *)
(* is then shown is partly up to the implementation (which bits of a       *)
(* codeword got out, how far a failed read got), so these actions take the *)
(* bits added, d, and the new read position, r, and say which are allowed. *)
(***************************************************************************)
NoFault(f, n) == f < 0 \/ f >= n

Reset == b' = <<>> /\ rd' = 0
Raw(d) == b' = b \o d /\ UNCHANGED rd

IsPrefix(d, s) == Len(d) <= Len(s) /\ d = Take(s, Len(d))

\* p is the outcome: 0 done, 1 panicked, 2 error, 3 clean end of input.
\* Refusing a value may be done by an error or by panicking.
EncodeOk(code, v, f, p, d, full) ==
    LET can == Rep_(code, v)
        good == Encodes(code, full, v)  \* full: the codeword, from a sink that works
    IN  CASE p = 0 -> can # "no" /\ good /\ d = full /\ NoFault(f, Len(d))
          [] OTHER -> IF can = "no" \/ full = <<>> THEN can # "yes" /\ d = <<>>
                      ELSE /\ p = 2
                           /\ good
                           /\ ~NoFault(f, Len(full))
                           /\ Len(d) <= f
                           /\ IsPrefix(d, full)

Encode(code, v, f, p, d, full) ==
    /\ EncodeOk(code, v, f, p, d, full)
    /\ b' = b \o d
    /\ UNCHANGED rd

\* Reading from position i of the bits s, of which res is what they denote
DecodesOn(s, i, res, f, p, x, r) ==
    LET can == res.k \in {"ok", "maybe"}
        clean == NoFault(f, IF res.k = "eof" THEN 1 ELSE res.i - i)
    IN  CASE p = 0 -> can /\ clean /\ x = res.v /\ r = res.i
          [] p = 3 -> res.k = "eof" /\ clean /\ r = i
          [] p = 2 -> /\ ~(res.k = "ok" /\ clean)
                      /\ ~(res.k = "eof" /\ clean)
                      /\ r >= i /\ r <= Len(s)
          [] OTHER -> FALSE
DecodeOk(res, f, p, x, r) == DecodesOn(b, rd, res, f, p, x, r)

Decode(code, f, p, x, r) ==
    /\ DecodeOk(Dec(code, b, rd), f, p, x, r)
    /\ rd' = r
    /\ UNCHANGED b

\* Integers: v is a tuple of bits, as many as the type has
IntBits(v, n, be) == IF be THEN Reverse(Take(v, n)) ELSE Take(v, n)
WriteIntOk(n, be, v, f, p, d) ==
    LET full == IntBits(v, n, be)
    IN  IF NoFault(f, n) THEN p = 0 /\ d = full
        ELSE p = 2 /\ Len(d) <= f /\ IsPrefix(d, full)
WriteInt(n, be, v, f, p, d) ==
    /\ WriteIntOk(n, be, v, f, p, d)
    /\ b' = b \o d
    /\ UNCHANGED rd

ReadIntOk(s, i, width, n, be, f, p, x, r) ==
    LET avail == Len(s) - i
        clean == NoFault(f, Min(n, avail + 1))
        low   == IF be THEN Reverse(Span(s, i, n)) ELSE Span(s, i, n)
    IN  CASE p = 0 -> clean /\ n <= avail /\ x = Widen(low, width) /\ r = i + n
          [] p = 3 -> clean /\ n > 0 /\ avail = 0 /\ r = i
          [] p = 2 -> /\ ~(clean /\ n <= avail)
                      /\ ~(clean /\ avail = 0)
                      /\ r >= i /\ r <= Len(s)
          [] OTHER -> FALSE
ReadInt(width, n, be, f, p, x, r) ==
    /\ ReadIntOk(b, rd, width, n, be, f, p, x, r)
    /\ rd' = r
    /\ UNCHANGED b

(***************************************************************************)
(* Examinations: many independent steps on streams of their own, the       *)
(* outcomes <<p, x, r>> of reads and <<p, d>> of writes together.          *)
(*   cuts[j]    reading what is left of the codeword after j - 1 bits      *)
(*   flips[j]   reading it with its j-th bit inverted                      *)
(*   more[j]    reading it with a bit j - 1 after it                       *)
(*   rfail[j]   reading it from a source that fails after j - 1 operations *)
(*   wfail[j]   writing it to a sink that does                             *)
(***************************************************************************)
ExamOk(code, v, e) ==
    LET d == e.d  n == Len(d)
        Reads(s, f, o) == DecodesOn(s, 0, Dec(code, s, 0), f, o[1], o[2], o[3])
    IN  /\ EncodeOk(code, v, -1, e.p, d, d)
        /\ d # <<>> =>
             /\ Len(e.cuts) = n /\ Len(e.flips) = n /\ Len(e.more) = 2
             /\ Len(e.rfail) = n + 1 /\ Len(e.wfail) = n + 1
             /\ \A j \in 1..n : /\ Reads(Take(d, j - 1), -1, e.cuts[j])
                                /\ Reads([d EXCEPT ![j] = 1 - d[j]], -1, e.flips[j])
             /\ \A x \in Bit : Reads(Append(d, x), -1, e.more[x + 1])
             /\ LET res == Dec(code, d, 0)
                IN  \A j \in 1..n + 1 :
                      /\ DecodesOn(d, 0, res, j - 1, e.rfail[j][1], e.rfail[j][2], e.rfail[j][3])
                      /\ EncodeOk(code, v, j - 1, e.wfail[j][1], e.wfail[j][2], d)

ProbeOk(code, s, p, x, r) == DecodesOn(s, 0, Dec(code, s, 0), -1, p, x, r)

IntExamOk(width, n, be, v, e) ==
    LET d == IntBits(v, n, be)
    IN  /\ WriteIntOk(n, be, v, -1, e.p, e.d)
        /\ Len(e.cuts) = n /\ Len(e.rfail) = n + 1 /\ Len(e.wfail) = n + 1
        /\ \A j \in 1..n : ReadIntOk(Take(d, j - 1), 0, width, n, be, -1, e.cuts[j][1], e.cuts[j][2], e.cuts[j][3])
        /\ \A j \in 1..n + 1 :
             /\ ReadIntOk(d, 0, width, n, be, j - 1, e.rfail[j][1], e.rfail[j][2], e.rfail[j][3])
             /\ WriteIntOk(n, be, v, j - 1, e.wfail[j][1], e.wfail[j][2])

ReadBit_(p, x, r) ==
    /\ IF rd < Len(b) THEN p = 0 /\ x = <<BitAt(b, rd)>> /\ r = rd + 1
       ELSE p = 3 /\ r = rd
    /\ rd' = r
    /\ UNCHANGED b
=============================================================================
