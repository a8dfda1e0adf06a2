------------------------------- MODULE LaneMC -------------------------------
(***************************************************************************)
(* The design of the parallel comparisons (src/broadword.rs): one word     *)
(* subtraction compares all lanes at once because setting the top bit of   *)
(* every lane on one side and clearing it on the other keeps borrows from  *)
(* crossing lanes; the top bits themselves are compared separately.        *)
(*                                                                         *)
(* TLC runs the algorithms on every pair of words of NL lanes of LW bits   *)
(* and compares with the lane-wise definitions of FunSpec.                 *)
(***************************************************************************)
EXTENDS Bits, TLC

CONSTANTS NL, LW

VARIABLES x, y      \* two words, as bit tuples
vars == <<x, y>>

Width == NL * LW
Words == BitSeqs(Width)

Init == x \in Words /\ y = Rep(0, Width)
Next == y = Rep(0, Width) /\ y' \in Words /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

And(a, b) == [i \in 1..Width |-> a[i] * b[i]]
Or(a, b)  == [i \in 1..Width |-> Max(a[i], b[i])]
Xor(a, b) == [i \in 1..Width |-> (a[i] + b[i]) % 2]
Not(a)    == [i \in 1..Width |-> 1 - a[i]]
Minus(a, b) == ToBits((Val(a) + 2^Width - Val(b)) % 2^Width, Width)
NoBorrow(a, b) == Val(b) <= Val(a)      \* a plain subtraction would not panic

H == [i \in 1..Width |-> IF i % LW = 0 THEN 1 ELSE 0]
LL == [i \in 1..Width |-> IF i % LW = 1 THEN 1 ELSE 0]

Lane(b, j) == Val(Span(b, LW * j, LW))
Signed(n) == IF n >= 2^(LW - 1) THEN n - 2^LW ELSE n
Marks(P(_)) == [i \in 1..Width |-> IF i % LW = 0 /\ P((i - 1) \div LW) THEN 1 ELSE 0]

D == Minus(Or(y, H), And(x, Not(H)))
ULe == And(Xor(Or(D, Xor(x, y)), And(x, Not(y))), H)
SLe == And(Xor(Or(D, Xor(x, y)), And(Not(x), y)), H)
Nz  == And(Or(Minus(Or(x, H), LL), x), H)

Unsigned == ULe = Marks(LAMBDA j : Lane(x, j) <= Lane(y, j))
SignedLe == SLe = Marks(LAMBDA j : Signed(Lane(x, j)) <= Signed(Lane(y, j)))
NonZero  == Nz = Marks(LAMBDA j : Lane(x, j) # 0)
Safe     == NoBorrow(Or(y, H), And(x, Not(H))) /\ NoBorrow(Or(x, H), LL)
=============================================================================
