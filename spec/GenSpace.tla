------------------------------ MODULE GenSpace ------------------------------
(***************************************************************************)
(* Values whose memory is to be weighed: every way of making a vector at   *)
(* every small size, and rank directories at every small size and around   *)
(* the sizes where the directories gain an entry, an entry gains a bit, or *)
(* a group gains a block.                                                  *)
(***************************************************************************)
EXTENDS GenLib

VARIABLE i

Types == << <<8, 0>>, <<16, 0>>, <<32, 0>>, <<64, 0>>, <<64, 1>>, <<32, 1>> >>
V(k, t, n, x) == <<[op |-> "sized", k |-> k, w |-> t[1], us |-> t[2], n |-> n, x |-> x]>>

Top == IF Deep THEN 20 ELSE 17
Dense == IF Deep THEN 3000 ELSE 700
Edges == {p \in UNION {{2 ^ j - 1, 2 ^ j, 2 ^ j + 1, 2 ^ j + 511, 3 * 2 ^ j} : j \in 1..Top}
              \cup UNION {{512 * j - 1, 512 * j, 512 * j + 1} : j \in 1 .. (IF Deep THEN 300 ELSE 60)} : p > Dense}
Sizes == [j \in 1..Dense + 1 |-> j - 1] \o Sorted(Edges)

Small == [j \in 1 .. (IF Deep THEN 300 ELSE 140) |-> j - 1] \o <<511, 512, 513, 4095, 4096, 4097, 65537>>

Cases ==
    FlatMap(LAMBDA n : FlatMap(LAMBDA t : V(IF n % 5 = 2 THEN "selj" ELSE "jac", t, n, n % 2), Types)
                       \o V(IF n % 7 = 3 THEN "sel9" ELSE "rank9", <<64, 0>>, n, n % 2)
                       \o (IF n % 64 = 0 THEN V("rank9v", <<64, 0>>, n, 7) ELSE <<>>)
                       \o (IF n % 11 = 0 THEN V("jac", <<64, 0>>, n, 500) \o V("rank9", <<64, 0>>, n, 500) \o V("jac", <<8, 0>>, n, 3) ELSE <<>>),
            Sizes)
    \o FlatMap(LAMBDA n : FlatMap(LAMBDA t : FlatMap(LAMBDA x : V("bv", t, n, x - 1), Upto(11))
                                            \o FlatMap(LAMBDA x : V("iv", t, n, (x - 1) + 8 * ((n * 5 + x) % t[1])) \o V("iv", t, n, (x - 1) + 8 * (t[1] - 1)), Upto(8)),
                                  IF Deep THEN Types ELSE <<Types[(n % 6) + 1], Types[((n + 2) % 6) + 1]>>), Small)

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
