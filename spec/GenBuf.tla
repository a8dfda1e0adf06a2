------------------------------- MODULE GenBuf -------------------------------
(***************************************************************************)
(* Histories for the real bit buffers, enumerated from BufSpec.            *)
(*                                                                         *)
(* Steps: every abstract state (contents, position) with few bits, every   *)
(* operation in it.  Walks: every sequence of a few operations from states *)
(* where a block begins or ends.                                           *)
(***************************************************************************)
EXTENDS GenLib

VARIABLE i

R(op, a)      == <<[op |-> op, a |-> a, m |-> 0]>>
M(op, a)      == <<[op |-> op, a |-> a, m |-> 1]>>
RX(op, a, ax) == <<[op |-> op, a |-> a, ax |-> ax, m |-> 0]>>
MX(op, a, ax) == <<[op |-> op, a |-> a, ax |-> ax, m |-> 1]>>

Ask == IF "GEN" \in DOMAIN IOEnv THEN IOEnv.GEN ELSE "C09"

\* Kinds that can be written (push), set, or only read
Pushes(k) == k \in {"bv", "bools", "obits"}
Sets(k) == k # "slice"

Ends(n, w) == Sorted({x \in UNION {{p, p + 1, p + 2} : p \in {0, n} \cup {j * w : j \in 0 .. n \div w}} : x <= n + 2 /\ x >= 1})
At(n, w) == IF w = 8 THEN Upto(n + 2) ELSE Ends(n, w)

Steps(k, n, w) ==
    M("read", <<>>)
    \o (IF Pushes(k) THEN M("write", <<0>>) \o M("write", <<1>>) ELSE <<>>)
    \o FlatMap(LAMBDA p : M("seek", <<p - 1>>), At(n, w))
    \o FlatMap(LAMBDA t : MX("seek", <<Far>>, <<t>>), FarTexts)
    \o M("reopen", <<>>) \o M("reappend", <<>>) \o M("clone", <<>>)

\* Numbers at the cursor (property C18; and a few for C09)
IntStep(op, a, t, tw) == <<[op |-> op, a |-> a, m |-> 1, t |-> t, tw |-> tw]>>
Num(k, c, be, t, tw) ==
    IF c > tw THEN <<>> ELSE
    IntStep("rint", <<c, be>>, t, tw) \o (IF Pushes(k) THEN IntStep("wint", <<c, be, Irregular(tw, c + be)>>, t, tw) ELSE <<>>)
IntSteps(k, n, w) ==
    LET cs == IF Ask = "C18" THEN Sorted({0, 1, 2, 7, 8, 9, w - 1, w, w + 1, 63, 64, n, n + 1} \cap 0..64) ELSE <<1, w>>
        Type(c) == IF c <= 8 THEN <<"u8", 8>> ELSE IF c <= 16 THEN <<"u16", 16>> ELSE IF c <= 32 THEN <<"u32", 32>> ELSE <<"u64", 64>>
    IN  FlatMap(LAMBDA c : FlatMap(LAMBDA be : Num(k, c, be, Type(c)[1], Type(c)[2])
                                               \o (IF Ask = "C18" THEN Num(k, c, be, "i64", 64) ELSE <<>>), <<0, 1>>), cs)

\* Direct access does not depend on the position: once per contents
Direct(k, n, w) ==
    FlatMap(LAMBDA p : R("get_bit", <<p - 1>>)
                       \o FlatMap(LAMBDA c : R("get_bits", <<p - 1, c>>), <<0, 1, w - 1, w, w + 1>>)
                       \o (IF Sets(k) THEN M("set_bit", <<p - 1, 0>>) \o M("set_bit", <<p - 1, 1>>)
                             \o FlatMap(LAMBDA c : M("set_bits", <<p - 1, c, Irregular(w, 3)>>), <<0, 1, w, w + 1>>) ELSE <<>>),
            At(n, w))
    \o FlatMap(LAMBDA q : R("get_block", <<q - 1>>)
                          \o (IF Sets(k) THEN M("set_block", <<q - 1, Irregular(w, 2)>>) \o M("set_block", <<q - 1, Ones1(w)>>) ELSE <<>>),
               Upto(BlockLen(n, w) + 2))
    \o FlatMap(LAMBDA t : RX("get_bit", <<Far>>, <<t>>) \o RX("get_bits", <<Far, w>>, <<t, "">>) \o RX("get_block", <<Far>>, <<t>>), FarTexts)

Case(k, w, vw, b, pos, ops) == <<[k |-> k, w |-> w, vw |-> vw, b |-> b, pos |-> pos, ops |-> ops]>>

Kinds == <<"bv", "bools", "obits", "oblk", "iv", "blocks", "prim", "buf", "slice">>
Lens(k, w) ==
    CASE k = "prim" -> <<w>>
      [] k = "blocks" -> IF w = 8 THEN <<0, 8, 16, 24>> ELSE <<0, w, 2 * w>>
      [] OTHER -> IF w = 8 THEN Each(LAMBDA p : p - 1, Upto(IF Deep THEN 26 ELSE 18)) ELSE <<0, 1, w - 1, w, w + 1, 2 * w>>
Ws(k) == IF k = "bools" THEN <<8>> ELSE IF Deep THEN <<8, 16, 32, 64>> ELSE <<8, 64>>

AllSteps ==
    FlatMap(LAMBDA k : FlatMap(LAMBDA w : FlatMap(LAMBDA n :
        LET b == Irregular(n, 1)
            steps == IF Ask = "C18" THEN IntSteps(k, n, w) ELSE Steps(k, n, w) \o IntSteps(k, n, w)
            ps == IF w = 8 THEN Upto(n + 1) ELSE Sorted({p \in {1, 2, w, w + 1, n, n + 1} : p >= 1 /\ p <= n + 1})
        IN  FlatMap(LAMBDA p : Case(k, w, IF k = "iv" THEN w ELSE 2, b, p - 1, steps), ps)
            \o (IF Ask = "C18" THEN <<>> ELSE Case(k, w, IF k = "iv" THEN w ELSE 2, b, n \div 2, Direct(k, n, w))),
        Lens(k, w)), Ws(k)), IF Ask = "C18" THEN <<"bv", "bools", "obits", "slice", "prim">> ELSE Kinds)

Letters(n, k) ==
    IF Ask = "C18"
    THEN <<[op |-> "rint", a |-> <<8, 0>>, t |-> "u8", tw |-> 8], [op |-> "rint", a |-> <<3, 1>>, t |-> "u64", tw |-> 64], [op |-> "seek", a |-> <<0>>], [op |-> "seek", a |-> <<n>>]>>
         \o (IF Pushes(k) THEN <<[op |-> "wint", a |-> <<8, 0, Irregular(8, 1)>>, t |-> "u8", tw |-> 8], [op |-> "wint", a |-> <<5, 1, Irregular(64, 2)>>, t |-> "u64", tw |-> 64], [op |-> "write", a |-> <<1>>]>> ELSE <<>>)
    ELSE
    <<[op |-> "read", a |-> <<>>]>>
    \o (IF Pushes(k) THEN <<[op |-> "write", a |-> <<0>>], [op |-> "write", a |-> <<1>>]>> ELSE IF Sets(k) THEN <<[op |-> "set_bit", a |-> <<0, 0>>]>> ELSE <<[op |-> "get_bit", a |-> <<0>>]>>)
    \o <<[op |-> "seek", a |-> <<0>>], [op |-> "seek", a |-> <<n>>], [op |-> "seek", a |-> <<n + 1>>], [op |-> "reopen", a |-> <<>>], [op |-> "reappend", a |-> <<>>]>>

Walks ==
    FlatMap(LAMBDA k : FlatMap(LAMBDA n : FlatMap(LAMBDA vw :
        <<[k |-> k, w |-> 8, vw |-> vw, b |-> Irregular(n, 2), pos |-> 0, walks |-> Words(Letters(n, k), IF Deep THEN 4 ELSE 3)]>>,
        IF n = 0 /\ k = "bv" THEN <<0, 1, 2>> ELSE <<2>>),
        CASE k = "bv" -> <<0, 1, 7, 8, 9, 15, 16>> [] k = "slice" -> <<0, 8, 9>> [] OTHER -> <<0, 8>>), <<"bv", "bools", "obits", "oblk", "slice">>)

Cases == AllSteps \o Walks

GenInit == i = 0
GenNext == i = 0 /\ i' = 1 /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_i
=============================================================================
