------------------------------- MODULE WideMC -------------------------------
(***************************************************************************)
(* Is the arithmetic of Wide arithmetic?  Below 2^30 it must agree with    *)
(* TLC's own integers; above, it must obey the laws that determine it      *)
(* (together with the former): commutative, associative, distributive,     *)
(* subtraction undoes addition, shifting multiplies by two, the order is   *)
(* the one of differences, the bits are those that sum up to the number.   *)
(* The operands are all numbers of up to MaxDigits digits with every digit *)
(* one of Ds: at or near its extremes.                                     *)
(***************************************************************************)
EXTENDS Wide, TLC

CONSTANTS Ds, MaxDigits

VARIABLES x, y
vars == <<x, y>>

Numbers == {WNorm(d) : d \in UNION {[1..n -> Ds] : n \in 0..MaxDigits}}
Few == {WNorm(d) : d \in [1..4 -> {0, 32767}]}
Nats == {0, 1, 2, 3, 7, 8, 255, 256, 32767, 32768, 32769, 65535, 1000000, 1048576, 1073741823}

Init == x \in Numbers /\ y = <<>>
Next == y = <<>> /\ y' \in Numbers /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Normal(n) == WNorm(n) = n
Canon == Normal(WAdd(x, y)) /\ Normal(WMul(x, y))

AddLaws == /\ WAdd(x, y) = WAdd(y, x)
           /\ WSub(WAdd(x, y), y) = x
           /\ \A z \in Few : WAdd(WAdd(x, y), z) = WAdd(x, WAdd(y, z))
MulLaws == /\ WMul(x, y) = WMul(y, x)
           /\ WMul(x, WAdd(y, <<1>>)) = WAdd(WMul(x, y), x)
           /\ \A m \in Ds : /\ WMulSmall(x, m) = WMul(x, WNat(m))
                            /\ WMulAddSmall(x, m, 16385) = WAdd(WMul(x, WNat(m)), WNat(16385))
Order == /\ WLeq(x, y) \/ WLeq(y, x)
         /\ (WLeq(x, y) /\ WLeq(y, x)) <=> x = y
         /\ WLess(x, y) <=> (WLeq(x, y) /\ x # y)
         /\ WLeq(x, y) => WAdd(x, WSub(y, x)) = y
         /\ WLeq(x, WAdd(x, y))
BitLaws == /\ WOfBits(WBits(x, 50)) = x
           /\ \A n \in {0, 1, 14, 15, 16, 31} : WShl(x, n) = WMul(x, WPow2(n))
           /\ WLen(x) = 0 <=> x = <<>>
           /\ x # <<>> => WLeq(WPow2(WLen(x) - 1), x) /\ WLess(x, WPow2(WLen(x)))
           /\ \A n \in 0..45 : WFits(x, n) <=> WLeq(x, WMax(n))

ASSUME Native ==
    /\ \A a \in Nats : WVal(WNat(a)) = a /\ Normal(WNat(a))
    /\ \A a, b \in {n \in Nats : n < 2^29} :
         /\ WAdd(WNat(a), WNat(b)) = WNat(a + b)
         /\ WLeq(WNat(a), WNat(b)) <=> a <= b
         /\ b <= a => WSub(WNat(a), WNat(b)) = WNat(a - b)
    /\ \A a, b \in {n \in Nats : n < 32768} : WMul(WNat(a), WNat(b)) = WNat(a * b)
    /\ \A a \in 0..1100, b \in {1, 2, 3, 7, 100} : WMul(WNat(a), WNat(b)) = WNat(a * b)
    /\ \A a \in 0..1100 : WBits(WNat(a), 12) = ToBits(a, 12) /\ Val(ToBits(a, 12)) = a
=============================================================================
