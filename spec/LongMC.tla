------------------------------- MODULE LongMC -------------------------------
(***************************************************************************)
(* LongSpec, which computes with runs and windows, says of every short     *)
(* stream what CodeSpec says of its bits: for words of WB = 6 bits, TLC    *)
(* takes every stream of up to MaxLen bits, every code, from every         *)
(* position, with every outcome and every fault.                           *)
(***************************************************************************)
EXTENDS LongSpec, TLC

CONSTANTS MaxLen, MaxAct        \* longest stream; and longest for actions

Gamma == <<"elias", <<"unary">>>>
Delta == <<"elias", <<"lift0", Gamma>>>>
Codes == {<<"unary">>, Gamma, Delta, <<"omega">>, <<"fib">>,
          <<"comma", 2>>, <<"comma", 3>>, <<"comma", 4>>,
          <<"lift0", <<"unary">>>>, <<"lift0", <<"lift0", <<"unary">>>>>>, <<"lift0", Gamma>>,
          <<"lift0", <<"fib">>>>, <<"lift0", <<"omega">>>>, <<"lift0", <<"comma", 2>>>>,
          <<"elias", <<"lift0", <<"unary">>>>>>, <<"elias", <<"comma", 2>>>>, <<"elias", <<"fixed", 3>>>>, <<"fixed", 5>>, <<"fixed", 0>>}

RunsOf(s) == Normal([j \in 1..Len(s) |-> <<s[j], W1>>] \o <<>>)

Init == b = <<>> /\ rd = 0 /\ runs = <<>> /\ at = <<>> /\ all = <<>>
\* The stream grows by a bit, in both views
Write == Len(b) < MaxLen /\ \E x \in Bit : Raw(<<x>>) /\ Grow(<< <<x, W1>> >>)
\* A byte of it is skipped, in both views
Skip == rd < Len(b) /\ rd < 4 /\ rd' = rd + 1 /\ Pass(WAdd(at, W1)) /\ UNCHANGED b
Next == Write \/ Skip
Spec == Init /\ [][Next]_<<codeVars, longVars>>

SameState ==
    /\ all = WNat(Len(b))
    /\ at = WNat(rd)
    /\ runs = RunsOf(Drop(b, rd))
    /\ Total(runs) = WNat(Len(b) - rd)
    /\ \A n \in 0..MaxLen : Glance(runs, n) = Take(Drop(b, rd), Min(n, Len(b) - rd))
    /\ \A n \in 0..Len(b) : StartsWith(RunsOf(b), RunsOf(Take(b, n)))
    /\ \A n \in 1..Len(b) : ~StartsWith(RunsOf(b), RunsOf([Take(b, n) EXCEPT ![n] = 1 - @]))
    /\ ~StartsWith(RunsOf(b), RunsOf(Append(b, 1)))

SameMeaning ==
    \A c \in Codes :
        LET d == Dec(c, b, rd)  e == LDec(c, runs)
        IN  /\ e.k = d.k
            /\ d.k \in {"ok", "maybe"} => e.v = d.v /\ e.i = WNat(d.i - rd)
            /\ (rd = 0 /\ d.k \in {"ok", "maybe"}) => (LEncodes(c, runs, d.v) <=> Encodes(c, b, d.v))
            /\ rd = 0 => ~LEncodes(c, runs, WAdd(d.v, W1))

Fault(f) == IF f < 0 THEN <<>> ELSE <<WNat(f)>>
SameSteps ==
    Len(b) <= MaxAct =>
        \A c \in Codes : \A f \in {-1, 0, 1, 2, Len(b)} : \A p \in 0..3 : \A r \in rd..Len(b) + 1 :
            LET d == Dec(c, b, rd)
            IN  \A x \in {d.v, <<7>>} :
                   DecodesOn(b, rd, d, f, p, x, r)
                   <=> LDecodeOk(runs, Fault(f), p, x, WNat(r - rd), LDec(c, runs))
SameWrites ==
    (Len(b) <= MaxAct /\ rd = 0) =>
        \A c \in Codes : \A f \in {-1, 0, 2, Len(b)} : \A p \in 0..2 : \A n \in 0..Len(b) :
            LET v == Dec(c, b, 0).v
            IN  EncodeOk(c, v, f, p, Take(b, n), b)
                <=> ENABLED LEncode(c, v, Fault(f), p, RunsOf(Take(b, n)), RunsOf(b))

ASSUME Division ==
    \A n \in 0..300 \cup {32767, 32768, 32769, 1000000007, 1073741823} : \A m \in {1, 2, 3, 7, 63, 64, 32767} :
        WDivSmall(WNat(n), m) = WNat(n \div m)
=============================================================================
