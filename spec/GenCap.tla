------------------------------- MODULE GenCap -------------------------------
(***************************************************************************)
(* Capacity: every way of making a vector of n elements with room for some *)
(* more, then every way of asking for room or giving it back, then filling *)
(* the room that was promised, element by element or block by block.       *)
(***************************************************************************)
EXTENDS GenLib

VARIABLE i

O(op, r, a) == [op |-> op, r |-> r, a |-> a, path |-> <<>>, big |-> 0, hd |-> 0, hc |-> 1]
OX(op, r, a, ax) == [op |-> op, r |-> r, a |-> a, ax |-> ax, path |-> <<>>, big |-> 1, hd |-> 1, hc |-> 1]
Dump(ops) == Append(Front(ops), [Last(ops) EXCEPT !.hd = 1])

\* n elements of eb bits (eb = 0: a bit vector) with some room
Makes(w, eb, n, m) ==
    LET v == IF eb = 0 THEN <<>> ELSE Ones1(eb) \o Zeros(w - eb)
        push == IF eb = 0 THEN O("push_bit", 1, <<1>>) ELSE O("push", 1, <<v>>)
        pushes == [k \in 1..n |-> push] \o <<>>
        e == IF eb = 0 THEN 1 ELSE eb
        new == IF eb = 0 THEN O("bv_new", 1, <<w>>) ELSE O("iv_new", 1, <<w, eb>>)
        cap(k) == IF eb = 0 THEN O("bv_cap", 1, <<w, k>>) ELSE O("iv_cap", 1, <<w, eb, k>>)
        bcap(k) == IF eb = 0 THEN O("bv_bcap", 1, <<w, k>>) ELSE O("iv_bcap", 1, <<w, eb, k>>)
        fill(k) == IF eb = 0 THEN O("bv_fill", 1, <<w, k, 1>>) ELSE O("iv_fill", 1, <<w, eb, k, v>>)
    IN  << <<new>> \o pushes,
           <<cap(n + m)>> \o pushes,
           <<bcap(BlockLen((n + m) * e, w))>> \o pushes,
           <<fill(n)>>,
           <<fill(n + m), O("truncate", 1, <<n>>)>>,
           <<fill(n), O("shrink_to_fit", 1, <<>>)>>,
           <<fill(n + m), O("clear", 1, <<>>)>> \o pushes,
           <<fill(n), O("clone", 1, <<1>>)>> >>

Asks(k, w, eb) ==
    LET e == IF eb = 0 THEN 1 ELSE eb IN
    << <<O("reserve", 1, <<k>>)>>, <<O("reserve_exact", 1, <<k>>)>>, <<O("block_reserve", 1, <<k>>)>>, <<O("block_reserve_exact", 1, <<k>>)>>,
       <<O("shrink_to_fit", 1, <<>>), O("reserve_exact", 1, <<k>>)>>, <<O("reserve", 1, <<k>>), O("reserve", 1, <<k>>)>>, <<O("reserve_exact", 1, <<k>>), O("shrink_to_fit", 1, <<>>)>>,
       <<O("clear", 1, <<>>), O("reserve", 1, <<k>>)>> >>

\* Then use the room: k more elements
Uses(w, eb, n, k) ==
    LET v == IF eb = 0 THEN <<>> ELSE Ones1(eb) \o Zeros(w - eb)
        push == IF eb = 0 THEN O("push_bit", 1, <<0>>) ELSE O("push", 1, <<v>>)
        grow(t) == IF eb = 0 THEN O("resize", 1, <<t, 1>>) ELSE O("iv_resize", 1, <<t, v>>)
    IN  << [j \in 1..k + 2 |-> push] \o <<O("shrink_to_fit", 1, <<>>)>>,
           <<grow(n + k), push, O("clear", 1, <<>>), grow(n + k), push>>,
           (IF eb = 0 THEN <<O("align_block", 1, <<0>>), O("push_block", 1, <<Ones1(w)>>), O("push_block", 1, <<Zeros(w)>>)>> ELSE <<>>)
               \o <<O("block_resize", 1, <<BlockLen((n + k) * (IF eb = 0 THEN 1 ELSE eb), w), Ones1(w)>>), push>> >>

\* Not representable on top of at least one element
TooBig == <<OX("reserve", 1, <<Far>>, <<"18446744073709551615">>), OX("reserve_exact", 1, <<Far>>, <<"18446744073709551615">>),
            OX("block_reserve", 1, <<Far>>, <<"18446744073709551615">>), OX("block_reserve_exact", 1, <<Far>>, <<"18446744073709551615">>),
            OX("block_reserve", 1, <<Far>>, <<"9223372036854775808">>), OX("block_reserve_exact", 1, <<Far>>, <<"9223372036854775808">>)>>

Ns(w) == IF w = 8 THEN <<0, 1, 7, 8, 9, 16, 17>> \o (IF Deep THEN <<2, 15, 23, 24, 25>> ELSE <<>>) ELSE <<0, 1, w - 1, w, w + 1>>
Ms(w) == IF w = 8 THEN <<0, 1, 5, 8, 9>> \o (IF Deep THEN <<2, 3, 16, 17, 40>> ELSE <<>>) ELSE <<1, w, w + 1>>
Ks(w) == IF w = 8 THEN <<0, 1, 7, 8, 9, 30>> \o (IF Deep THEN <<2, 15, 16, 17>> ELSE <<>>) ELSE <<1, w, w + 1>>
Kinds == << <<8, 0>>, <<8, 1>>, <<8, 5>>, <<8, 8>>, <<64, 0>>, <<64, 7>> >> \o (IF Deep THEN << <<16, 0>>, <<32, 0>>, <<8, 3>>, <<8, 7>>, <<16, 5>>, <<32, 31>>, <<64, 33>>, <<64, 64>> >> ELSE <<>>)

\* Every combination in turn; a part of them, fairly spread
Groups ==
    FlatMap(LAMBDA kd : LET w == kd[1]  eb == kd[2]  big == eb > 0 /\ w > 8 IN
        FlatMap(LAMBDA n0 : LET n == IF big THEN n0 \div 9 ELSE n0 IN FlatMap(LAMBDA m : FlatMap(LAMBDA k :
            LET ms == Makes(w, eb, n, m)  as == Asks(k, w, eb)  us == Uses(w, eb, n, IF k > 64 THEN 64 ELSE k)
            IN  FlatMap(LAMBDA x : FlatMap(LAMBDA y :
                    IF (x + 3 * y + n0 + m + k) % (IF Deep THEN 13 ELSE 11) # 0 THEN <<>>
                    ELSE << Dump(ms[x]) \o as[y] \o Dump(us[((x + y + k) % 3) + 1]) \o (IF x = y THEN TooBig ELSE <<>>) >>,
                    Upto(Len(as))), Upto(Len(ms))),
            Ks(w)), Ms(w)), Ns(w)), Kinds)

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Groups)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
