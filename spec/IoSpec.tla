------------------------------- MODULE IoSpec -------------------------------
(***************************************************************************)
(* Blocks on byte streams.  State: the bytes ever written, and how many of *)
(* them have been read.                                                    *)
(*                                                                         *)
(* A sink or source may hand over fewer bytes at a time than asked (which  *)
(* must not show), may hiccup (say "interrupted": the library may retry or *)
(* report), and may fail for good once f bytes have gone through (f < 0:   *)
(* never).                                                                 *)
(***************************************************************************)
EXTENDS Bits

VARIABLES bytes, rd
ioVars == <<bytes, rd>>

Byte(v, i) == Val(Span(v, 8 * i, 8))
LittleEnd(v) == [i \in 1 .. Len(v) \div 8 |-> Byte(v, i - 1)] \o <<>>
Encoded(v, big) == IF big THEN Reverse(LittleEnd(v)) ELSE LittleEnd(v)

Fine(f, n) == f < 0 \/ f >= n
IsPrefix(d, s) == Len(d) <= Len(s) /\ d = Take(s, Len(d))

Reset == bytes' = <<>> /\ rd' = 0
Raw(d) == bytes' = bytes \o d /\ UNCHANGED rd

\* p: 0 done, 1 panicked, 2 error; d: the bytes that reached the sink
WriteBlock(v, big, f, hiccup, p, d) ==
    LET full == Encoded(v, big)
    IN  /\ CASE p = 0 -> Fine(f, Len(full)) /\ d = full
             [] p = 2 -> (~Fine(f, Len(full)) \/ hiccup) /\ IsPrefix(d, full)
             [] OTHER -> FALSE
        /\ bytes' = bytes \o d
        /\ UNCHANGED rd

\* r: the read position afterwards
ReadBlock(w, big, f, hiccup, p, x, r) ==
    LET n == w \div 8
        good == Len(bytes) - rd >= n /\ Fine(f, n)
    IN  /\ CASE p = 0 -> good /\ r = rd + n /\ Len(x) = w /\ Encoded(x, big) = SubSeq(bytes, rd + 1, rd + n)
             [] p = 2 -> (~good \/ hiccup) /\ r >= rd /\ r <= Min(rd + n, Len(bytes))
             [] OTHER -> FALSE
        /\ rd' = r
        /\ UNCHANGED bytes
=============================================================================
