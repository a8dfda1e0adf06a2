------------------------------- MODULE IoMC -------------------------------
(***************************************************************************)
(* The design of block I/O: a block is moved by repeated partial transfers *)
(* against a stream that hands over as many bytes as it likes, may say     *)
(* "interrupted" (the loop tries again), may end, and may fail.  TLC takes *)
(* every such environment and checks that when the loop returns, what      *)
(* happened is the one step of IoSpec: all the bytes in order and success, *)
(* or an error and never a block.                                          *)
(***************************************************************************)
EXTENDS IoSpec, Integers, TLC

CONSTANTS MaxBlock,      \* bytes in the largest block
          Limit          \* bytes written before no more are

VARIABLES pc, n, big, val, f, moved, hic, got, base, out, lastp

vars == <<bytes, rd, pc, n, big, val, f, moved, hic, got, base, out, lastp>>

\* A few telling values of n bytes
Vals(k) == {[j \in 1 .. 8 * k |-> IF ((j - 1) \div 8) = m /\ (j - 1) % 8 = 0 THEN 1 ELSE 0] \o <<>> : m \in 0..k - 1}
           \cup {[j \in 1 .. 8 * k |-> IF ((j - 1) \div 8) % 2 = 0 THEN 1 ELSE 0] \o <<>>}

Init == bytes = <<>> /\ rd = 0 /\ pc = "idle" /\ n = 0 /\ big = FALSE /\ val = <<>> /\ f = -1 /\ moved = 0 /\ hic = FALSE /\ got = <<>> /\ base = <<0, 0>> /\ out = <<>> /\ lastp = 0

Begin(what) ==
    /\ pc = "idle"
    /\ n' \in {1, 2, MaxBlock}
    /\ big' \in BOOLEAN
    /\ f' \in -1 .. MaxBlock
    /\ pc' = what
    /\ val' \in (IF what = "put" THEN Vals(n') ELSE {<<>>})
    /\ out' = IF what = "put" THEN Encoded(val', big') ELSE <<>>
    /\ moved' = 0 /\ hic' = FALSE /\ got' = <<>> /\ base' = <<Len(bytes), rd>>
    /\ UNCHANGED <<bytes, rd, lastp>>

Env == <<n, big, val, f, base, out>>

\* The sink takes k of the remaining bytes
Accept == /\ pc = "put" /\ moved < n
          /\ \E k \in 1 .. n - moved :
                /\ f < 0 \/ moved + k <= f
                /\ bytes' = bytes \o SubSeq(out, moved + 1, moved + k)
                /\ moved' = moved + k
          /\ UNCHANGED <<rd, pc, hic, got, lastp>> /\ UNCHANGED Env
Deliver == /\ pc = "get" /\ moved < n
           /\ \E k \in 1 .. n - moved :
                /\ rd + k <= Len(bytes) /\ (f < 0 \/ moved + k <= f)
                /\ got' = got \o SubSeq(bytes, rd + 1, rd + k)
                /\ rd' = rd + k /\ moved' = moved + k
           /\ UNCHANGED <<bytes, pc, hic, lastp>> /\ UNCHANGED Env
Hiccup == /\ pc \in {"put", "get"} /\ moved < n /\ ~hic
          /\ hic' = TRUE
          /\ UNCHANGED <<bytes, rd, pc, moved, got, lastp>> /\ UNCHANGED Env
\* Nothing more will come: failure, a full sink, the end of the source
Stuck == /\ pc \in {"put", "get"} /\ moved < n
         /\ f = moved \/ (pc = "get" /\ rd = Len(bytes))
         /\ pc' = IF pc = "put" THEN "putdone" ELSE "getdone"
         /\ lastp' = 2
         /\ UNCHANGED <<bytes, rd, moved, hic, got>> /\ UNCHANGED Env
Finish == /\ pc \in {"put", "get"} /\ moved = n
          /\ pc' = IF pc = "put" THEN "putdone" ELSE "getdone"
          /\ lastp' = 0
          /\ UNCHANGED <<bytes, rd, moved, hic, got>> /\ UNCHANGED Env
Again == /\ pc \in {"putdone", "getdone"} /\ pc' = "idle"
         /\ n' = 0 /\ big' = FALSE /\ val' = <<>> /\ f' = -1 /\ moved' = 0 /\ hic' = FALSE /\ got' = <<>> /\ base' = <<0, 0>> /\ out' = <<>> /\ lastp' = 0
         /\ UNCHANGED <<bytes, rd>>

Next == (Len(bytes) < Limit /\ Begin("put")) \/ Begin("get") \/ Accept \/ Deliver \/ Hiccup \/ Stuck \/ Finish \/ Again
Spec == Init /\ [][Next]_vars

\* The block assembled from bytes in the order asked for
Assembled == LET s == IF big THEN Reverse(got) ELSE got
             IN  [j \in 1 .. 8 * Len(s) |-> (s[((j - 1) \div 8) + 1] \div (2 ^ ((j - 1) % 8))) % 2] \o <<>>

Refines ==
    /\ pc = "putdone" =>
         LET d == SubSeq(bytes, base[1] + 1, Len(bytes))
             full == Encoded(val, big)
         IN  CASE lastp = 0 -> Fine(f, n) /\ d = full
               [] OTHER -> (~Fine(f, n) \/ hic) /\ IsPrefix(d, full)
    /\ pc = "getdone" =>
         LET good == Len(bytes) - base[2] >= n /\ Fine(f, n)
         IN  CASE lastp = 0 -> good /\ rd = base[2] + n /\ Encoded(Assembled, big) = SubSeq(bytes, base[2] + 1, rd)
               [] OTHER -> ~good /\ rd <= base[2] + n
\* Big and little end differ by reversal, and the bytes determine the value
Orders == pc = "put" => /\ Encoded(val, TRUE) = Reverse(Encoded(val, FALSE))
                        /\ \A v \in Vals(n) : Encoded(v, big) = out => v = val
=============================================================================
