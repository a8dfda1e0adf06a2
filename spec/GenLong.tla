------------------------------ MODULE GenLong ------------------------------
(***************************************************************************)
(* Long streams, enumerated from LongSpec: codewords and leading runs      *)
(* around the counts at which a narrow counter or a buffer might give out. *)
(* GEN is a property and m (up to 2^20 bits, every kind of stream) or b    *)
(* (past 2^32 bits, a user's stream that keeps runs).                      *)
(***************************************************************************)
EXTENDS LongSpec, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

VARIABLE i

Gen == IOEnv.GEN
Prop == SubSeq(Gen, 1, 3)
Big == SubSeq(Gen, 4, 4) = "b"
Deep == IOEnv.TIER = "thorough"
FlatMap(Op(_), s) == FlattenSeq([j \in 1..Len(s) |-> Op(s[j])])

U == <<"unary">>  O == <<"omega">>  F == <<"fib">>
C(n) == <<"comma", n>>
E(c) == <<"elias", c>>  L(c) == <<"lift0", c>>
Gamma == E(U)  Delta == E(L(Gamma))
Codes == <<U, L(U), L(L(U)), Gamma, L(Gamma), E(L(U)), Delta, O, F, C(2), C(3), C(8), C(33), C(63), L(C(2)), E(C(2))>>

N(k) == WNat(k)
P(k) == WPow2(k)
Plus(x, k) == WAdd(x, N(k))
Less(x, k) == WSub(x, N(k))

Kinds == IF Big THEN <<"runs">> ELSE <<"runs", "b8", "b64", "bools", "deque">>
Lens == IF Big THEN IF Deep THEN <<P(31), Less(P(32), 1), P(32), Plus(P(32), 5)>> ELSE <<Plus(P(32), 5)>>
        ELSE <<N(255), N(256), N(257), N(4099), N(65535), N(65536), N(65537), N(70000), Plus(P(20), 3)>>
New(k) == <<[op |-> "new", k |-> k]>>
Feed(d) == <<[op |-> "feed", d |-> d]>>
Enc(c, v, f) == <<[op |-> "enc", c |-> c, v |-> v, f |-> f]>>
Dec_(c, f) == <<[op |-> "dec", c |-> c, f |-> f]>>
RInt(t, w, n, be) == <<[op |-> "rint", t |-> t, w |-> w, n |-> n, be |-> be]>>

\* Written and read back, with something short after each
RoundTrip(cs, k, n) ==
    New(k) \o FlatMap(LAMBDA c : Enc(c, n, <<>>) \o Enc(Gamma, N(5), <<>>), cs)
    \o FlatMap(LAMBDA c : Dec_(c, <<>>) \o Dec_(Gamma, <<>>), cs)
    \o Dec_(cs[1], <<>>) \o RInt("u8", 8, 3, 0)
Unaries == <<U, L(U), L(L(U))>>
C10 == FlatMap(LAMBDA k : FlatMap(LAMBDA n :
            IF Big THEN FlatMap(LAMBDA c : <<RoundTrip(<<c>>, k, n)>>, IF Deep THEN Unaries ELSE <<U, L(U)>>)
            ELSE <<RoundTrip(Unaries, k, n), RoundTrip(<<F, U, C(2), O, L(U), Delta, C(33), L(L(U)), F>>, k, n)>>, Lens), Kinds)

Tails == << <<>>, << <<1, N(1)>> >>, << <<1, N(1)>>, <<0, N(130)>>, <<1, N(2)>> >>, << <<1, N(1)>>, <<0, N(1)>>, <<1, N(9)>> >>, << <<1, N(140)>> >>, << <<1, N(2)>>, <<0, N(1)>>, <<1, N(70)>>, <<0, N(9)>> >> >>
\* Many zeros, or ones, and then something else
Flip(d) == [j \in 1..Len(d) |-> <<1 - d[j][1], d[j][2]>>] \o <<>>
After == Dec_(Gamma, <<>>) \o RInt("u16", 16, 11, 1) \o Dec_(C(3), <<>>)
Hostile(c, k, n, t) == <<New(k) \o Feed(<< <<0, n>> >> \o t) \o Dec_(c, <<>>) \o After>>
HostileOnes(c, k, n, t) == <<New(k) \o Feed(<< <<1, n>> >> \o Flip(t)) \o Dec_(c, <<>>) \o After>>
\* A stream that fails
Faults(n) == << <<>>, Less(n, 1), n, Plus(n, 1), Plus(n, 2)>>
Failing(n) == FlatMap(LAMBDA f : FlatMap(LAMBDA c : <<New("runs") \o Enc(c, n, <<f>>) \o Dec_(c, <<>>), New("runs") \o Enc(c, n, <<>>) \o Dec_(c, <<f>>) \o RInt("u8", 8, 5, 0)>>, Unaries), Faults(n))
              \o FlatMap(LAMBDA f : FlatMap(LAMBDA c : <<New("runs") \o Feed(<< <<0, n>>, <<1, N(80)>> >>) \o Dec_(c, <<f>>) \o RInt("u8", 8, 5, 0)>>, <<C(2), C(63), Gamma>>), Faults(n))
KindsFor(n) == IF Big \/ (WLess(N(60000), n) /\ ~Deep) THEN <<"runs", "b64">> ELSE Kinds
C11 == IF Big
       THEN FlatMap(LAMBDA n : FlatMap(LAMBDA c : FlatMap(LAMBDA t : Hostile(c, "runs", n, t), IF Deep THEN Tails ELSE IF c \in {U, Gamma, E(L(U)), C(2), C(63)} THEN <<Tails[6]>> ELSE <<>>), Codes), Lens)
            \o FlatMap(LAMBDA n : IF Deep THEN Failing(n) ELSE <<New("runs") \o Enc(U, n, << Less(n, 3) >>) \o Dec_(U, <<>>)>>, Lens)
       ELSE FlatMap(LAMBDA n : FlatMap(LAMBDA k : FlatMap(LAMBDA c : FlatMap(LAMBDA t : Hostile(c, k, n, t) \o HostileOnes(c, k, n, t), Tails), Codes), KindsFor(n)),
                    IF Deep THEN Lens ELSE <<N(255), N(256), N(257), N(65536), N(65537)>>)
            \o FlatMap(Failing, IF Deep THEN Lens ELSE <<N(256), N(65537)>>)
            \o FlatMap(LAMBDA n : FlatMap(LAMBDA k : <<New(k) \o FlatMap(LAMBDA c : Feed(<< <<0, n>>, <<1, N(1)>> >>) \o Dec_(c, <<>>) \o Feed(<< <<0, n>> >>) \o Dec_(c, <<>>), <<U, L(U), Gamma>>)>>, Kinds), Lens)

Cases == CASE Prop = "C10" -> C10 [] Prop = "C11" -> C11

GenInit == i = 0 /\ b = <<>> /\ rd = 0 /\ runs = <<>> /\ at = <<>> /\ all = <<>>
GenNext == i = 0 /\ i' = 1 /\ UNCHANGED <<codeVars, longVars>> /\ ndJsonSerialize(IOEnv.OUT, Cases)
GenSpec == GenInit /\ [][GenNext]_<<i, codeVars, longVars>>
=============================================================================
