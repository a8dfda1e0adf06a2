------------------------------- MODULE CapMC -------------------------------
(***************************************************************************)
(* Do the rules of CapSpec, each about one step, add up to the promises    *)
(* users rely on?  The allocator gives whatever CapStep allows (within     *)
(* MaxBlocks); room is the number of elements that may still be pushed     *)
(* without allocating, according to the last promise made:                 *)
(*   - made or reserved with room for k: k elements;                       *)
(*   - each push uses one; clearing gives the old contents' room back;     *)
(*   - shrinking ends all promises.                                        *)
(* Kept: as long as room is left, a push does not allocate.                *)
(***************************************************************************)
EXTENDS CapSpec, TLC

CONSTANTS Wid, Eb, MaxBlocks

VARIABLES n, bc, room, al, was

vars == <<n, bc, room, al, was>>     \* n in elements; al: did the last step allocate

Bits_(k) == k * Eb
Step(op, a, n1, bc1, l) == CapStep(op, a, Wid, Eb, Bits_(n), bc, Bits_(n1), bc1, l, TRUE)

Init == /\ \E k \in 0..6 : \E c \in 0..MaxBlocks :
             /\ CapStep("iv_cap", <<Wid, Eb, k>>, Wid, Eb, 0, 0, 0, c, 1, TRUE)
             /\ bc = c /\ room = k
        /\ n = 0 /\ al = 0 /\ was = 0

Push == /\ \E c \in 0..MaxBlocks, l \in 0..1 :
             /\ Step("push", <<>>, n + 1, c, l) /\ (c # bc => l = 1)
             /\ bc' = c /\ al' = l
        /\ n' = n + 1 /\ was' = room
        /\ room' = IF room > 0 THEN room - 1 ELSE 0
Reserve(op) ==
    \E k \in 0..5, c \in 0..MaxBlocks, l \in 0..1 :
        /\ Step(op, <<k>>, n, c, l) /\ (c # bc => l = 1)
        /\ bc' = c /\ al' = l /\ n' = n /\ was' = 0
        /\ room' = Max(room, k)
BlockReserve(op) ==
    \E k \in 0..2, c \in 0..MaxBlocks, l \in 0..1 :
        /\ Step(op, <<k>>, n, c, l) /\ (c # bc => l = 1)
        /\ bc' = c /\ al' = l /\ n' = n /\ was' = 0
        \* room for k more blocks is room for the elements that fit in them
        /\ room' = Max(room, (k * Wid) \div Eb)
Clear_ == /\ Step("clear", <<>>, 0, bc, 0) /\ n' = 0 /\ bc' = bc /\ al' = 0 /\ was' = 0 /\ room' = room + n
Shrink == /\ \E c \in 0..MaxBlocks, l \in 0..1 : Step("shrink_to_fit", <<>>, n, c, l) /\ bc' = c /\ al' = l
          /\ n' = n /\ was' = 0 /\ room' = 0
Truncate_ == \E k \in 0..n : n' = k /\ bc' = bc /\ al' = 0 /\ was' = 0 /\ room' = room + (n - k)

Next == Push \/ Clear_ \/ Shrink \/ Truncate_ \/ (\E o \in ReserveOps : Reserve(o)) \/ (\E o \in BlockReserveOps : BlockReserve(o))
Spec == Init /\ [][Next]_vars

Kept == was > 0 => al = 0
\* ... because what was promised is really there
RoomIsThere == BlockLen(Bits_(n + room), Wid) <= bc
Reported == n < CapElems(bc, Wid, Eb) => BlockLen(Bits_(n + 1), Wid) <= bc
Holds == BlockLen(Bits_(n), Wid) <= bc
=============================================================================
