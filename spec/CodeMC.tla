------------------------------- MODULE CodeMC -------------------------------
(***************************************************************************)
(* Does CodeSpec mean what it should?  With words of WB = 6 bits instead   *)
(* of 64, TLC takes every bit string of up to MaxLen bits, every code and  *)
(* every value, and checks:                                                *)
(*                                                                         *)
(*   Total     every string denotes a value, is at its end, or is an error;*)
(*   Delimited a codeword denotes its value whatever follows it, and no    *)
(*             proper prefix of it denotes anything (prefix-freedom);      *)
(*   Unique    the only string that encodes v is the one the textbook      *)
(*             construction Enc gives;                                     *)
(*   Exists    and that one does, for every value the code supports.       *)
(*                                                                         *)
(* Nothing in Dec, Encodes or Rep_ depends on WB being 64.                 *)
(***************************************************************************)
EXTENDS CodeSpec, TLC

CONSTANT MaxLen

Gamma == <<"elias", <<"unary">>>>
Delta == <<"elias", <<"lift0", Gamma>>>>
Codes == {<<"unary">>, Gamma, Delta, <<"omega">>, <<"fib">>,
          <<"comma", 2>>, <<"comma", 3>>, <<"comma", 4>>,
          <<"lift0", <<"fib">>>>, <<"lift0", <<"omega">>>>, <<"lift0", Delta>>,
          <<"lift0", <<"lift0", <<"omega">>>>>>, <<"lift0", <<"comma", 2>>>>,
          <<"elias", <<"lift0", <<"fib">>>>>>, <<"elias", <<"comma", 2>>>>,
          <<"elias", <<"fixed", 3>>>>, <<"elias", <<"fixed", 2>>>>, <<"fixed", 5>>, <<"fixed", 0>>}

(***************************************************************************)
(* The textbook constructions.                                             *)
(***************************************************************************)
Digits(v) == CHOOSE n \in 0..WB + 1 : (IF n = 0 THEN v = 0 ELSE 2^(n-1) <= v /\ v < 2^n)
Msb(v, n) == Reverse(ToBits(v, n))

RECURSIVE OmegaOf(_, _)
OmegaOf(v, rest) == IF v = 1 THEN rest ELSE OmegaOf(Digits(v) - 1, Msb(v, Digits(v)) \o rest)

RECURSIVE F(_)
F(i) == IF i <= 1 THEN i ELSE F(i - 1) + F(i - 2)
\* Zeckendorf: the greedy sum of F(2), F(3), ...
RECURSIVE Zeck(_, _)
Zeck(v, i) == IF i < 2 THEN <<>>
              ELSE IF F(i) <= v THEN Append(Zeck(v - F(i), i - 1), 1)
              ELSE Append(Zeck(v, i - 1), 0)
Trim(s) == LET m == CHOOSE m \in 1..Len(s) : s[m] = 1 /\ \A k \in m + 1..Len(s) : s[k] = 0
           IN  Take(s, m)

RECURSIVE CommaOf(_, _, _)
CommaOf(v, n, rest) == IF v = 0 THEN rest
                       ELSE CommaOf(v \div (2^n - 1), n, ToBits(v % (2^n - 1), n) \o rest)

RECURSIVE Enc(_, _)
Enc(c, v) ==
    CASE c[1] = "unary" -> Rep(0, v) \o <<1>>
      [] c[1] = "elias" -> Enc(c[2], Digits(v) - 1) \o ToBits(v, Digits(v) - 1)
      [] c[1] = "omega" -> OmegaOf(v, <<0>>)
      [] c[1] = "fib"   -> Append(Trim(Zeck(v, 14)), 1)
      [] c[1] = "comma" -> CommaOf(v, c[2], Rep(1, c[2]) \o <<>>)
      [] c[1] = "fixed" -> ToBits(v, c[2])
      [] c[1] = "lift0" -> Enc(c[2], v + 1)

Values == 0..2^WB - 1

\* One state per string (b) and code (rd is its number, to reuse the variable)
RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE
                                         IN  <<x>> \o SetToSeq_(S \ {x})
CodeSeq == SetToSeq_(Codes)

Init == b = <<>> /\ rd \in 1..Len(CodeSeq)
Next == Len(b) < MaxLen /\ (\E x \in Bit : b' = Append(b, x)) /\ UNCHANGED rd
Spec == Init /\ [][Next]_codeVars

C == CodeSeq[rd]
D == Dec(C, b, 0)

Total == /\ D.k \in {"ok", "maybe", "eof", "err"}
         /\ D.i \in 0..Len(b)
         /\ D.k = "eof" => b = <<>>
         /\ (b = <<>> /\ C # <<"fixed", 0>>) => D.k = "eof"
         /\ D.k \in {"ok", "maybe"} => InWord(D.v)

Delimited ==
    D.k \in {"ok", "maybe"} =>
        \A j \in 0..Len(b) :
           LET d == Dec(C, Take(b, j), 0)
           IN  IF j < D.i THEN d.k = (IF j = 0 THEN "eof" ELSE "err") ELSE d = D

Unique ==
    (D.k \in {"ok", "maybe"} /\ D.i = Len(b) /\ Canonical(C, b)) =>
        /\ Rep_(C, D.v) # "no"
        /\ b = Enc(C, WVal(D.v))

\* An error is final: more input does not mend a value that is too big
Final == (D.k = "err" /\ D.i < Len(b)) => Dec(C, Take(b, Len(b) - 1), 0).k \in {"err", "eof"}

ASSUME Exists ==
    \A c \in Codes, v \in Values :
        Rep_(c, WNat(v)) # "no" => Encodes(c, Enc(c, v), WNat(v))

ASSUME Refuses ==
    \A c \in Codes : Rep_(c, <<>>) = "no" <=> c \in {Gamma, Delta, <<"omega">>, <<"fib">>, <<"elias", <<"lift0", <<"fib">>>>>>, <<"elias", <<"comma", 2>>>>, <<"elias", <<"fixed", 3>>>>, <<"elias", <<"fixed", 2>>>>}
=============================================================================
