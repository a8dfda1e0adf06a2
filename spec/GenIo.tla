------------------------------- MODULE GenIo -------------------------------
(***************************************************************************)
(* Histories of block I/O: every type, byte order, kind of stream, size of *)
(* partial transfer, and fault point; and every way for a source to be too *)
(* short.                                                                  *)
(***************************************************************************)
EXTENDS GenLib

VARIABLE i

\* 0 stands for usize
Types == <<8, 16, 32, 64, 0>>
W(t) == IF t = 0 THEN 64 ELSE t
Us(t) == IF t = 0 THEN 1 ELSE 0
\* Values that differ in every byte, and the extremes
Counting(w) == [j \in 1..w |-> IF ((((j - 1) \div 8) + 1) \div (IF (j - 1) % 8 < 4 THEN 2 ^ ((j - 1) % 8) ELSE 1)) % 2 = 1 THEN 1 ELSE 0] \o <<>>
Values(w) == <<Counting(w), Irregular(w, 1), <<1>> \o Zeros(w - 1), Zeros(w - 1) \o <<1>> >>
             \o (IF Deep THEN <<Ones1(w), Zeros(w), Irregular(w, 2)>> ELSE <<>>)

New(k) == [op |-> "new", k |-> k, f |-> -1, h |-> 0, ch |-> 0, z |-> 0]
Raw(d) == [op |-> "raw", d |-> d, f |-> -1, h |-> 0, ch |-> 0, z |-> 0]
Put(t, be, al, v, f, z, h, ch) == [op |-> "put", w |-> W(t), us |-> Us(t), be |-> be, al |-> al, v |-> v, f |-> f, z |-> z, h |-> h, ch |-> ch]
Get(t, be, al, f, z, h, ch)    == [op |-> "get", w |-> W(t), us |-> Us(t), be |-> be, al |-> al, f |-> f, z |-> z, h |-> h, ch |-> ch]

Orders == << <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>

\* Written in every way of chunking, read back in every other order as well
Whole(k, t, o) ==
    LET chunks == IF k = "mem" THEN <<0>> ELSE <<0, 1, 2, 3, 5, 7>>
    IN  <<New(k)>>
        \o FlatMap(LAMBDA v : FlatMap(LAMBDA c : <<Put(t, o[1], o[2], v, -1, 0, 0, c)>>, chunks), Values(W(t)))
        \o FlatMap(LAMBDA v : FlatMap(LAMBDA c : <<Get(t, o[1], o[2], -1, 0, 0, c)>>, chunks), Values(W(t)))
        \o <<Get(t, o[1], o[2], -1, 0, 0, 0)>>

\* Written one way, read as every other type and order
Mixed(t, o, u, q) ==
    <<New("mem")>> \o FlatMap(LAMBDA v : <<Put(t, o[1], o[2], v, -1, 0, 0, 0)>>, Values(W(t)))
    \o [j \in 1 .. 5 |-> Get(u, q[1], q[2], -1, 0, 0, 0)]

\* A source of n bytes
Short(k, t, o, n) ==
    <<New(k), Raw([j \in 1..n |-> (37 * j + 11) % 256] \o <<>>), Get(t, o[1], o[2], -1, 0, 0, IF k = "mem" THEN 0 ELSE n % 3)>>
    \o <<Raw(<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)>>

\* Faults after f bytes, hiccups, and a good transfer afterwards
Faulty(t, o, f, z, h, c) ==
    LET v == Counting(W(t))
    IN  <<New("user"), Put(t, o[1], o[2], v, f, z, h, c), Put(t, o[1], o[2], v, -1, 0, 0, 0),
          New("user"), Put(t, o[1], o[2], v, -1, 0, 0, 0), Put(t, o[1], o[2], Irregular(W(t), 1), -1, 0, 0, 0), Get(t, o[1], o[2], f, z, h, c)>>

Cases ==
    FlatMap(LAMBDA t : FlatMap(LAMBDA o : FlatMap(LAMBDA k : <<Whole(k, t, o)>>, <<"mem", "user">>)
        \o FlatMap(LAMBDA u : FlatMap(LAMBDA q : <<Mixed(t, o, u, q)>>, Orders), Types)
        \o FlatMap(LAMBDA n : FlatMap(LAMBDA k : <<Short(k, t, o, n - 1)>>, <<"mem", "user">>), Upto(W(t) \div 8 + 2))
        \o FlatMap(LAMBDA f : FlatMap(LAMBDA z : FlatMap(LAMBDA h : FlatMap(LAMBDA c : <<Faulty(t, o, f - 2, z, h, c)>>,
                IF Deep THEN <<0, 1, 2, 3, 5, 7>> ELSE <<0, 1, 3>>), <<0, 1>>), <<0, 1>>), Upto(W(t) \div 8 + 3)),
        Orders), Types)

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
