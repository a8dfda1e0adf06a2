------------------------------ MODULE SpaceMC ------------------------------
(***************************************************************************)
(* A value is built, changed and taken apart by steps that each talk to    *)
(* the allocator; live counts what it has handed out and not been given    *)
(* back.  TLC takes every such life of up to MaxSteps steps and checks     *)
(* that Heap, which looks at the value only, is that count (Exact); that a *)
(* stack-only value never holds anything (Declared); and, for every size   *)
(* in Sizes, that the directory bounds are small shares of the vector: a    *)
(* quarter for Rank9, 10/w and a little for Jacobson's (Succinct).         *)
(***************************************************************************)
EXTENDS SpaceSpec, TLC

CONSTANTS MaxSteps, Sizes

VARIABLES t, k, other    \* the value, steps so far, a second value to pair it with

Init == t = <<"stack">> /\ live = 0 /\ k = 0 /\ other = <<"stack">>

Give(x, bytes) == t' = x /\ live' = live + bytes /\ UNCHANGED other

Box(s)    == Give(<<"box", s, t>>, s)
Unbox     == t[1] = "box" /\ t' = t[3] /\ live' = live - t[2] /\ UNCHANGED other
Store(c, s) == t = <<"stack">> /\ Give(<<"store", c, s>>, c * s)
Regrow(c) == t[1] = "store" /\ t' = <<"store", c, t[3]>> /\ live' = live - t[2] * t[3] + c * t[3] /\ UNCHANGED other
IntoVec(c, s) == Give(<<"vec", c, s, <<t>> >>, c * s)
PushStack == t[1] = "vec" /\ Len(t[4]) < t[2] /\ Give(<<"vec", t[2], t[3], Append(t[4], <<"stack">>)>>, 0)
PopVec    == t[1] = "vec" /\ Len(t[4]) > 0 /\ t' = <<"vec", t[2], t[3], SubSeq(t[4], 1, Len(t[4]) - 1)>> /\ live' = live - Heap(t[4][Len(t[4])]) /\ UNCHANGED other
Index(d)  == t[1] = "store" /\ Give(<<"rank9", t, t[2] * t[3] * 8, d>>, d)
Deindex   == t[1] = "rank9" /\ t' = t[2] /\ live' = live - t[4] /\ UNCHANGED other
Swap      == t' = other /\ other' = t /\ UNCHANGED live
Pair      == t' = <<"tuple", <<t, other>> >> /\ other' = <<"stack">> /\ UNCHANGED live

Next == /\ k < MaxSteps /\ k' = k + 1
        /\ \/ \E s \in {0, 8} : Box(s)
           \/ Unbox \/ PushStack \/ PopVec \/ Deindex \/ Swap \/ Pair
           \/ \E c \in {0, 3} : Store(c, 8) \/ IntoVec(c + 1, 8)
           \/ \E c \in {1, 2} : Regrow(c)
           \/ Index(16)
Spec == Init /\ [][Next]_<<t, live, k, other>>

Exact == Heap(t) + Heap(other) = live
Declared == StackOnly(t) => Heap(t) = 0
Fine == DirectoriesOk(t)

Succinct ==
    k = 0 => \A n \in Sizes :
        \* in bits: a quarter of n, and a constant
        /\ 8 * Rank9Bound(n) <= (n \div 4) + 8 * (Slack + 32)
        /\ \A w \in {8, 16, 32, 64} : n >= 65536 => 8 * JacobsonBound(n, w) <= CASE w = 64 -> n \div 4 + 4096 [] w = 32 -> n \div 2 + 4096 [] w = 16 -> n [] OTHER -> 2 * n
=============================================================================
