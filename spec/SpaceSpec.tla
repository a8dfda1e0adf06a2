----------------------------- MODULE SpaceSpec -----------------------------
(***************************************************************************)
(* What a structure owns.  A value is a term:                              *)
(*   <<"stack">>                   a primitive, a reference, a slice       *)
(*   <<"tuple", parts>>            or any struct: the sequence of its parts*)
(*   <<"vec", cap, size, parts>>   room for cap elements of size bytes     *)
(*   <<"box", size, part>>                                                 *)
(*   <<"store", cap, size>>        a bit or integer vector: cap blocks     *)
(*   <<"rank9", store, n, dir>>    dir bytes of directory over n bits      *)
(*   <<"jacobson", store, n, w, dir>>                                      *)
(* The state is the number of bytes the value under observation has        *)
(* allocated and not given back.                                           *)
(***************************************************************************)
EXTENDS Bits

VARIABLES live
spaceVars == <<live>>

RECURSIVE Heap(_), SumHeap(_, _, _)
SumHeap(ps, lo, hi) ==      \* of parts lo..hi
    IF lo > hi THEN 0
    ELSE IF lo = hi THEN Heap(ps[lo])
    ELSE LET m == (lo + hi) \div 2 IN SumHeap(ps, lo, m) + SumHeap(ps, m + 1, hi)
Heap(t) ==
    CASE t[1] = "stack" -> 0
      [] t[1] = "tuple" -> SumHeap(t[2], 1, Len(t[2]))
      [] t[1] = "vec"   -> t[2] * t[3] + SumHeap(t[4], 1, Len(t[4]))
      [] t[1] = "box"   -> t[2] + Heap(t[3])
      [] t[1] = "store" -> t[2] * t[3]
      [] t[1] = "rank9" -> Heap(t[2]) + t[4]
      [] t[1] = "jacobson" -> Heap(t[2]) + t[5]

\* May the type be declared stack-only?  Must it?
RECURSIVE StackOnly(_)
StackOnly(t) ==
    CASE t[1] = "stack" -> TRUE
      [] t[1] = "tuple" -> \A i \in 1..Len(t[2]) : StackOnly(t[2][i])
      [] OTHER -> FALSE

RECURSIVE CeilLg(_)
CeilLg(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLg((n + 1) \div 2)

(***************************************************************************)
(* Directories.  Rank9: two words for every eight words of bits, and one   *)
(* more pair.  Jacobson: blocks of w bits in groups of about lg^2 n bits;  *)
(* every group has a count of lg(n+1) bits and every block a count within  *)
(* its group, both stored packed, and one more of each.  Slack is a        *)
(* constant for rounding.                                                  *)
(***************************************************************************)
Slack == 64
Rank9Bound(n) == 16 * (CeilDiv(CeilDiv(n, 64), 8) + 1) + Slack

JacobsonBound(n, w) ==
    LET lg  == CeilLg(n)
        per == Max(1, CeilDiv(lg * lg, w))      \* blocks per group
        nb  == CeilDiv(n, w)
        ng  == CeilDiv(nb, per)
    IN  CeilDiv((nb + 1) * CeilLg(w * per + 1), 8)
        + CeilDiv((ng + 1) * Max(1, CeilLg(n + 1)), 8) + Slack

RECURSIVE DirectoriesOk(_)
DirectoriesOk(t) ==
    CASE t[1] \in {"stack", "store"} -> TRUE
      [] t[1] = "tuple" -> \A i \in 1..Len(t[2]) : DirectoriesOk(t[2][i])
      [] t[1] = "vec" -> \A i \in 1..Len(t[4]) : DirectoriesOk(t[4][i])
      [] t[1] = "box" -> DirectoriesOk(t[3])
      [] t[1] = "rank9" -> t[4] <= Rank9Bound(t[3]) /\ DirectoriesOk(t[2])
      [] t[1] = "jacobson" -> t[5] <= JacobsonBound(t[3], t[4]) /\ DirectoriesOk(t[2])

\* size: bytes of the type itself; reported: stack, heap, total, stack-only
Observe(t, size, stack, heap, total, so) ==
    /\ live' = Heap(t)
    /\ heap = Heap(t)
    /\ stack = size
    /\ total = stack + heap
    /\ so = StackOnly(t)
    /\ so => heap = 0
    /\ DirectoriesOk(t)
=============================================================================
