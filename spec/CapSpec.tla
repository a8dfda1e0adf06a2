------------------------------ MODULE CapSpec ------------------------------
(***************************************************************************)
(* Capacity of the owned vectors.  How much an allocation really gets is   *)
(* nondeterministic; what the library promises about it is not.            *)
(*                                                                         *)
(* CapStep(op, a, w, eb, n0, bc0, n1, bc1, al, ok) relates the state before*)
(* (n0 bits, bc0 blocks of capacity) and after (n1, bc1) one operation op  *)
(* with arguments a, which called the allocator al times.                  *)
(***************************************************************************)
EXTENDS Bits

\* Elements that fit in bc blocks
CapElems(bc, w, eb) == (bc * w) \div eb

\* Blocks needed for n elements
NeedBlocks(n, w, eb) == BlockLen(n * eb, w)

ReserveOps == {"reserve", "reserve_exact"}
BlockReserveOps == {"block_reserve", "block_reserve_exact"}

\* Operations that may only allocate when the result does not fit
GrowOps == {"push_bit", "push_block", "align_block", "resize", "block_resize",
            "push", "iv_resize"}

CapStep(op, a, w, eb, n0, bc0, n1, bc1, al, ok) ==
    \* the contents always fit
    /\ BlockLen(n1, w) <= bc1
    \* a refused operation leaves the storage alone
    /\ ~ok => bc1 = bc0
    /\ ok =>
       /\ (op = "bv_cap" \/ op = "iv_cap") =>
            CapElems(bc1, w, eb) >= (IF op = "bv_cap" THEN a[2] ELSE a[3])
       /\ (op = "bv_bcap") => bc1 >= a[2]
       /\ (op = "iv_bcap") => bc1 >= a[3]
       /\ (op \in ReserveOps) =>
            CapElems(bc1, w, eb) >= (n0 \div eb) + a[1]
       /\ (op \in BlockReserveOps) => bc1 >= BlockLen(n0, w) + a[1]
       \* room that was promised is room that is there
       /\ (op \in GrowOps /\ BlockLen(n1, w) <= bc0) => (al = 0 /\ bc1 = bc0)
       \* clearing keeps the storage, shrinking leaves what the contents need
       /\ (op = "clear") => (bc1 = bc0 /\ al = 0)
       /\ (op = "shrink_to_fit") => bc1 = BlockLen(n1, w)
       \* reserving never gives storage back
       /\ (op \in ReserveOps \cup BlockReserveOps) => bc1 >= bc0
=============================================================================
