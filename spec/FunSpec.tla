------------------------------ MODULE FunSpec ------------------------------
(***************************************************************************)
(* Block arithmetic, masks, spans of a block, and broadword operations:    *)
(* what each must answer, by definition rather than by computation.        *)
(*                                                                         *)
(* Numbers are wide (module Wide), so the extremes of 64-bit integers are  *)
(* ordinary arguments here.  A question is <<name, arguments...>>; its     *)
(* answer is <<0, results...>>, or <<1>> if it was refused by panicking.   *)
(* w is the block width.                                                   *)
(***************************************************************************)
EXTENDS Wide

Refused == <<1>>
IsNone(x) == x = <<0>>
One(x) == Len(x) = 2 /\ x[1] = 0

Lg(w) == CHOOSE k \in 3..6 : Pow(k) = w

\* v = floor(i / w); v = ceil(i / w)
IsDiv(v, i, w)  == LET m == WMulSmall(v, w) IN WLeq(m, i) /\ WLess(i, WAdd(m, WNat(w)))
IsCDiv(v, i, w) == LET m == WMulSmall(v, w) IN WLeq(i, m) /\ WLess(m, WAdd(i, WNat(w)))
ModW(i, w)      == WOfBits(WBits(i, Lg(w)))

SpanOk(s, c, w) == WLeq(c, WNat(w)) /\ WLeq(s, WSub(WNat(w), c))

BlockAsk(w, q, x) ==
    LET o == q[1]
        i == IF Len(q) > 1 THEN q[2] ELSE <<>>
        W == WNat(w)
    IN
    CASE o = "nbits"    -> x = <<0, W>>
      [] o = "lg_nbits" -> x = <<0, WNat(Lg(w))>>
      [] o = "lg_nbits_mask" -> x = <<0, WNat(w - 1)>>
      [] o = "div_nbits" -> One(x) /\ IsDiv(x[2], i, w)
      [] o = "ceil_div_nbits" -> One(x) /\ IsCDiv(x[2], i, w)
      [] o = "checked_div_nbits" -> One(x) /\ IsDiv(x[2], i, w)
         \* absent only where adding w - 1 would leave 64 bits
      [] o = "checked_ceil_div_nbits" ->
            IF IsNone(x) THEN ~WFits(WAdd(i, WNat(w - 1)), 64)
            ELSE One(x) /\ IsCDiv(x[2], i, w)
      [] o = "mod_nbits" -> x = <<0, ModW(i, w)>>
      [] o = "mul_nbits" -> WFits(WMulSmall(i, w), 64) => x = <<0, WMulSmall(i, w)>>
      [] o = "last_block_bits" ->
            x = <<0, IF ModW(i, w) = <<>> THEN W ELSE ModW(i, w)>>
      [] o = "address" -> Len(x) = 3 /\ x[1] = 0 /\ IsDiv(x[2], i, w) /\ x[3] = ModW(i, w)
      [] o = "bit_index" -> x = <<0, WAdd(WMulSmall(i, w), q[3])>>
      [] o = "low_mask" -> x = <<0, WMax(WVal(i))>>
      [] o = "nth_mask" -> x = <<0, WPow2(WVal(i))>>
      [] o = "get_bit" ->
            x = IF WLess(q[3], W) THEN <<0, <<WBits(i, w)[WVal(q[3]) + 1]>>>> ELSE Refused
      [] o = "with_bit" ->
            x = IF WLess(q[3], W)
                THEN <<0, WOfBits(PutBit(WBits(i, w), WVal(q[3]), q[4]))>> ELSE Refused
      [] o = "get_bits" ->
            x = IF SpanOk(q[3], q[4], w)
                THEN <<0, WOfBits(Span(WBits(i, w), WVal(q[3]), WVal(q[4])))>> ELSE Refused
      [] o = "with_bits" ->
            x = IF SpanOk(q[3], q[4], w)
                THEN <<0, WOfBits(PutSpan(WBits(i, w), WVal(q[3]), WVal(q[4]), WBits(q[5], w)))>>
                ELSE Refused
         \* the smallest n with 2^n >= i; the largest n with 2^n <= i
      [] o = "ceil_lg" ->
            One(x) /\ LET n == WVal(x[2])
                      IN  WLeq(i, WPow2(n)) /\ (n > 0 => WLess(WPow2(n - 1), i))
      [] o = "floor_lg" ->
            i # <<>> => One(x) /\ LET n == WVal(x[2])
                                  IN  WLeq(WPow2(n), i) /\ WLess(i, WPow2(n + 1))
         \* the smallest n with n * d >= i
      [] o = "ceil_div" ->
            IF q[3] = <<>> THEN x = Refused
            ELSE One(x) /\ LET m == WMul(x[2], q[3])
                           IN  WLeq(i, m) /\ WLess(m, WAdd(i, q[3]))

(***************************************************************************)
(* Broadword.  Words are 64 bits; lane j is bits 8j .. 8j+7.               *)
(***************************************************************************)
Lane(b, j) == Val(Span(b, 8 * j, 8))
Signed(n) == IF n >= 128 THEN n - 256 ELSE n
\* The word whose lanes are 128 where P holds and 0 elsewhere
LanesAre(x, P(_)) ==
    One(x) /\ LET r == WBits(x[2], 64)
              IN  WFits(x[2], 64) /\ \A j \in 0..7 : Lane(r, j) = IF P(j) THEN 128 ELSE 0

\* Position of the r-th one, as <<p>> or <<>>
SelectOne(b, r) ==
    LET S == {p \in 1..64 : b[p] = 1 /\ Cardinality({k \in 1..p - 1 : b[k] = 1}) = r}
    IN  IF S = {} THEN <<>> ELSE <<(CHOOSE p \in S : TRUE) - 1>>

WordAsk(q, x) ==
    LET o == q[1]
        b == WBits(q[2], 64)
        c == IF Len(q) > 2 THEN WBits(q[3], 64) ELSE b
        r == IF WLess(q[3], <<64>>) THEN WVal(q[3]) ELSE 64
    IN
    CASE o = "count_ones" -> x = <<0, WNat(Ones(b))>>
      [] o = "select1" ->
            LET s == SelectOne(b, r) IN x = IF s = <<>> THEN <<0>> ELSE <<0, WNat(s[1])>>
      [] o = "select1_raw" ->
            LET s == SelectOne(b, r) IN x = <<0, WNat(IF s = <<>> THEN 72 ELSE s[1])>>
      [] o = "u_le8" -> LanesAre(x, LAMBDA j : Lane(b, j) <= Lane(c, j))
      [] o = "le8"   -> LanesAre(x, LAMBDA j : Signed(Lane(b, j)) <= Signed(Lane(c, j)))
      [] o = "u_nz8" -> LanesAre(x, LAMBDA j : Lane(b, j) # 0)
      [] o = "l8"    -> One(x) /\ \A j \in 0..7 : Lane(WBits(x[2], 64), j) = 1
      [] o = "h8"    -> One(x) /\ \A j \in 0..7 : Lane(WBits(x[2], 64), j) = 128
=============================================================================
