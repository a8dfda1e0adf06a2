------------------------------ MODULE WrapSpec ------------------------------
(***************************************************************************)
(* Questions about one bit sequence: rank and select; and comparison of    *)
(* stores.                                                                 *)
(***************************************************************************)
EXTENDS Bits

Rank1(b, p) == OnesUpTo(b, p + 1)
Rank0(b, p) == p + 1 - OnesUpTo(b, p + 1)

\* How many of the positions s .. s+c-1 hold x
CountIn(b, s, c, x) == IF x = 1 THEN OnesIn(b, s, c) ELSE c - OnesIn(b, s, c)

\* Position of the k-th bit equal to x (k from 0), as <<pos>>, or <<>>
RECURSIVE SelectIn(_, _, _, _, _)
SelectIn(b, s, c, k, x) ==
    IF c = 0 THEN <<>>
    ELSE IF c = 1 THEN IF k = 0 /\ BitAt(b, s) = x THEN <<s>> ELSE <<>>
    ELSE LET h == c \div 2
             left == CountIn(b, s, h, x)
         IN  IF k < left THEN SelectIn(b, s, h, k, x)
             ELSE SelectIn(b, s + h, c - h, k - left, x)
Select(b, k, x) == IF k >= Len(b) THEN <<>> ELSE SelectIn(b, 0, Len(b), k, x)

(***************************************************************************)
(* Comparison of three stores of one type.  x has, for every pair in order,*)
(* eq, cmp+1, partial_cmp+1 (3 if none), hashes equal.                     *)
(***************************************************************************)
CmpOk(s1, s2, s3, x) ==
    LET s == <<s1, s2, s3>>
        At(i, j) == x[3 * (i - 1) + j]
        Eq(i, j) == s[i].eb = s[j].eb /\ s[i].b = s[j].b
    IN  /\ Len(x) = 9
        /\ \A i, j \in 1..3 :
             /\ At(i, j)[1] = (IF Eq(i, j) THEN 1 ELSE 0)
             /\ (At(i, j)[2] = 1) = Eq(i, j)
             /\ At(i, j)[3] = At(i, j)[2]
             /\ Eq(i, j) => At(i, j)[4] = 1
             /\ At(i, j)[2] + At(j, i)[2] = 2
        /\ \A i, j, k \in 1..3 :
             (At(i, j)[2] <= 1 /\ At(j, k)[2] <= 1) => At(i, k)[2] <= 1
=============================================================================
