------------------------------ MODULE LongSpec ------------------------------
(***************************************************************************)
(* Codes and integers on streams of any length.  CodeSpec keeps every bit  *)
(* of a stream; here a stream is the list of its runs, <<bit, how many>>   *)
(* with the count a Wide number, so that codewords of more than 2^32 bits  *)
(* are as easily written down as short ones.  The meaning of a code is     *)
(* CodeSpec's: all the codes but unary look at no more than a few hundred  *)
(* bits once leading zeros have been counted (unary) or skipped (comma),   *)
(* so a window of the stream and Dec settle the rest.  LongMC checks that  *)
(* the two agree on every short stream.                                    *)
(***************************************************************************)
EXTENDS CodeSpec

CONSTANT Look       \* bits in a window: 256 (fewer in LongMC)

VARIABLES
    runs,   \* what is still to be read
    at,     \* how many bits have been read
    all     \* how many have been written

longVars == <<runs, at, all>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN <<>> ELSE WAdd(s[1][2], Total(SubSeq(s, 2, Len(s))))

\* No empty runs, and neighbours differ
RECURSIVE Merge(_, _)
Merge(out, s) ==
    IF s = <<>> THEN out
    ELSE LET h == s[1]  rest == SubSeq(s, 2, Len(s)) IN
         IF h[2] = <<>> THEN Merge(out, rest)
         ELSE IF out # <<>> /\ out[Len(out)][1] = h[1]
              THEN Merge([out EXCEPT ![Len(out)] = <<h[1], WAdd(@[2], h[2])>>], rest)
              ELSE Merge(Append(out, h), rest)
Normal(s) == Merge(<<>>, s)

RECURSIVE DropRuns(_, _)
DropRuns(s, n) ==
    IF n = <<>> \/ s = <<>> THEN s
    ELSE IF WLess(n, s[1][2]) THEN << <<s[1][1], WSub(s[1][2], n)>> >> \o SubSeq(s, 2, Len(s))
    ELSE DropRuns(SubSeq(s, 2, Len(s)), WSub(n, s[1][2]))

\* The first bits, up to n (natural) of them
RECURSIVE Glance(_, _)
Glance(s, n) ==
    IF s = <<>> \/ n = 0 THEN <<>>
    ELSE IF WLess(s[1][2], WNat(n))
         THEN Rep(s[1][1], WVal(s[1][2])) \o Glance(SubSeq(s, 2, Len(s)), n - WVal(s[1][2]))
         ELSE Rep(s[1][1], n)

\* s starts with p
RECURSIVE StartsWith(_, _)
StartsWith(s, p) ==
    IF p = <<>> THEN TRUE
    ELSE IF s = <<>> THEN FALSE
    ELSE /\ s[1][1] = p[1][1]
         /\ IF Len(p) = 1 THEN WLeq(p[1][2], s[1][2])
            ELSE s[1][2] = p[1][2] /\ StartsWith(SubSeq(s, 2, Len(s)), SubSeq(p, 2, Len(p)))

\* x \div m and x % m for a natural m below 2^15
RECURSIVE DivFrom(_, _, _, _)
DivFrom(x, m, i, r) ==              \* digits i .. 1, remainder so far
    IF i = 0 THEN <<>>
    ELSE LET s == r * Base + x[i]
         IN  DivFrom(x, m, i - 1, s % m) \o <<s \div m>>
WDivSmall(x, m) == WNorm(DivFrom(x, m, Len(x), 0))

Zeros(s) == IF s # <<>> /\ s[1][1] = 0 THEN s[1][2] ELSE <<>>

\* Here .i is the number of bits used, a Wide number
Long(d) == [d EXCEPT !.i = WNat(@)]

RECURSIVE LDec(_, _)
LDec(code, s) ==
    CASE code[1] = "unary" ->
            LET z == Zeros(s)
            IN  IF s = <<>> THEN Eof(<<>>)
                ELSE IF Len(s) = 1 /\ s[1][1] = 0 THEN Short(z)
                ELSE Ok(z, WAdd(z, W1))
      [] code[1] = "comma" ->
            LET skip == WMulSmall(WDivSmall(Zeros(s), code[2]), code[2])
                d == Long(Dec(code, Glance(DropRuns(s, skip), Look), 0))
            IN  IF s = <<>> THEN Eof(<<>>)
                ELSE IF d.k = "eof" THEN Short(skip)
                ELSE [d EXCEPT !.i = WAdd(@, skip)]
      [] code[1] = "elias" ->
            LET h == LDec(code[2], s)
            IN  IF h.k \in {"eof", "err"} THEN h
                ELSE IF ~WLess(h.v, WbW) THEN TooBig(h.i)
                ELSE LET c == WVal(h.v)  m == Glance(DropRuns(s, h.i), c)
                     IN  IF Len(m) < c THEN Short(Total(s))
                         ELSE [h EXCEPT !.v = WOfBits(Append(m, 1)), !.i = WAdd(@, WNat(c))]
      [] code[1] = "lift0" ->
            LET h == LDec(code[2], s)
            IN  IF h.k \in {"eof", "err"} THEN h
                ELSE IF h.v = <<>> THEN Bad(h.i)
                ELSE [h EXCEPT !.v = WSub(h.v, W1)]
      [] OTHER -> Long(Dec(code, Glance(s, Look), 0))

\* of a stream that is a codeword
RECURSIVE LCanonical(_, _)
LCanonical(code, s) ==
    CASE code[1] = "comma" -> WLess(Zeros(s), WNat(code[2]))
      [] code[1] \in {"elias", "lift0"} -> LCanonical(code[2], s)
      [] OTHER -> TRUE

LEncodes(code, s, v) ==
    LET d == LDec(code, s)
    IN  d.k \in {"ok", "maybe"} /\ d.v = v /\ d.i = Total(s) /\ LCanonical(code, s)

\* f: <<>> for a stream that works, or <<n>>: it fails after n operations
LNoFault(f, n) == IF f = <<>> THEN TRUE ELSE WLeq(n, f[1])

LReset == runs' = <<>> /\ at' = <<>> /\ all' = <<>>
Grow(d) == runs' = Normal(runs \o d) /\ all' = WAdd(all, Total(d)) /\ UNCHANGED at
Pass(r) == runs' = DropRuns(runs, WSub(r, at)) /\ at' = r /\ UNCHANGED all

\* As EncodeOk: d is what came out, full what a sink that works was given
LEncode(code, v, f, p, d, full) ==
    LET can == Rep_(code, v)
        good == LEncodes(code, full, v)
    IN  /\ CASE p = 0 -> can # "no" /\ good /\ d = full /\ LNoFault(f, Total(d))
             [] OTHER -> IF can = "no" \/ full = <<>> THEN can # "yes" /\ d = <<>>
                         ELSE /\ p = 2
                              /\ good
                              /\ ~LNoFault(f, Total(full))
                              /\ WLeq(Total(d), f[1])
                              /\ StartsWith(full, d)
        /\ Grow(d)

\* As DecodesOn
LDecodeOk(s, f, p, x, n, res) ==
    LET can == res.k \in {"ok", "maybe"}
        clean == LNoFault(f, IF res.k = "eof" THEN W1 ELSE res.i)
    IN  CASE p = 0 -> can /\ clean /\ x = res.v /\ n = res.i
          [] p = 3 -> res.k = "eof" /\ clean /\ n = <<>>
          [] p = 2 -> ~(res.k = "ok" /\ clean) /\ ~(res.k = "eof" /\ clean) /\ WLeq(n, Total(s))
          [] OTHER -> FALSE
LDecode(code, f, p, x, r) ==
    /\ WLeq(at, r)
    /\ LDecodeOk(runs, f, p, x, WSub(r, at), LDec(code, runs))
    /\ Pass(r)

LReadInt(width, n, be, p, x, r) ==
    LET s == Glance(runs, Look)
    IN  /\ WLeq(at, r)
        /\ WLess(WSub(r, at), WNat(Look))
        /\ ReadIntOk(s, 0, width, n, be, -1, p, x, WVal(WSub(r, at)))
        /\ Pass(r)
=============================================================================
