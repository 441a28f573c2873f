-------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Integers of any size (TLC's own are 32 bits wide).                      *)
(*                                                                         *)
(* A magnitude is a sequence of decimal digits, least significant first,   *)
(* without leading zeros (zero is <<>>).  An integer is [neg, m], zero     *)
(* never being negative.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

RECURSIVE Trim(_)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d

Digit(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

CmpM(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE FoldLeft(LAMBDA acc, i: IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE acc,
                  0, [i \in 1..Len(a) |-> i])

AddM(a, b) ==
    LET step(acc, i) ==
          LET s == Digit(a, i) + Digit(b, i) + acc.c
          IN [c |-> s \div 10, d |-> Append(acc.d, s % 10)]
    IN Trim(FoldLeft(step, [c |-> 0, d |-> <<>>], [i \in 1..MaxLen(a, b) + 1 |-> i]).d)

(* a >= b *)
SubM(a, b) ==
    LET step(acc, i) ==
          LET s == Digit(a, i) - Digit(b, i) - acc.c
          IN [c |-> IF s < 0 THEN 1 ELSE 0, d |-> Append(acc.d, IF s < 0 THEN s + 10 ELSE s)]
    IN Trim(FoldLeft(step, [c |-> 0, d |-> <<>>], [i \in 1..Len(a) |-> i]).d)

(* a times a small number (below ten million) plus a small number *)
RECURSIVE Spill(_)
Spill(c) == IF c = 0 THEN <<>> ELSE <<c % 10>> \o Spill(c \div 10)
MulAddSmall(a, k, c0) ==
    LET step(acc, i) ==
          LET s == a[i] * k + acc.c
          IN [c |-> s \div 10, d |-> Append(acc.d, s % 10)]
        r == FoldLeft(step, [c |-> c0, d |-> <<>>], [i \in 1..Len(a) |-> i])
    IN Trim(r.d \o Spill(r.c))

MulM(a, b) ==
    LET step(acc, i) ==
          AddM(acc, Trim([j \in 1..(i - 1) |-> 0] \o MulAddSmall(a, b[i], 0)))
    IN FoldLeft(step, <<>>, [i \in 1..Len(b) |-> i])

(* quotient and remainder, b # 0 *)
RECURSIVE Take(_, _, _)
Take(r, b, q) == IF CmpM(r, b) < 0 THEN [r |-> r, q |-> q] ELSE Take(SubM(r, b), b, q + 1)
DivModM(a, b) ==
    LET step(acc, i) ==
          LET t == Take(Trim(<<a[Len(a) + 1 - i]>> \o acc.r), b, 0)
          IN [r |-> t.r, q |-> <<t.q>> \o acc.q]
        x == FoldLeft(step, [r |-> <<>>, q |-> <<>>], [i \in 1..Len(a) |-> i])
    IN [q |-> Trim(x.q), r |-> x.r]

RECURSIVE Pow2M(_)
Pow2M(n) == IF n = 0 THEN <<1>> ELSE IF n >= 20 THEN MulAddSmall(Pow2M(n - 20), 1048576, 0)
            ELSE MulAddSmall(Pow2M(n - 1), 2, 0)

---------------------------------------------------------------------------
Int0 == [neg |-> FALSE, m |-> <<>>]
Mk(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
FromNat(n) == Mk(FALSE, Spill(n))

Neg(a) == Mk(~a.neg, a.m)
Add(a, b) ==
    IF a.neg = b.neg THEN Mk(a.neg, AddM(a.m, b.m))
    ELSE IF CmpM(a.m, b.m) >= 0 THEN Mk(a.neg, SubM(a.m, b.m)) ELSE Mk(b.neg, SubM(b.m, a.m))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Mk(a.neg # b.neg, MulM(a.m, b.m))

(* division rounding down *)
FloorDiv(a, b) ==
    LET x == DivModM(a.m, b.m)
    IN IF a.neg = b.neg THEN Mk(FALSE, x.q)
       ELSE Mk(TRUE, IF x.r = <<>> THEN x.q ELSE AddM(x.q, <<1>>))
(* division rounding towards zero *)
TruncDiv(a, b) == Mk(a.neg # b.neg, DivModM(a.m, b.m).q)

Shl(a, n) == Mk(a.neg, MulM(a.m, Pow2M(n)))
Shr(a, n) == FloorDiv(a, Mk(FALSE, Pow2M(n)))

(* bitwise or of naturals *)
RECURSIVE OrM(_, _)
OrM(a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE LET x == DivModM(a, <<2>>)
             y == DivModM(b, <<2>>)
         IN MulAddSmall(OrM(x.q, y.q), 2, IF x.r = <<1>> \/ y.r = <<1>> THEN 1 ELSE 0)
Or(a, b) == Mk(FALSE, OrM(a.m, b.m))

Cmp(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
             ELSE IF a.neg THEN CmpM(b.m, a.m) ELSE CmpM(a.m, b.m)
Within(a, lo, hi) == Cmp(lo, a) <= 0 /\ Cmp(a, hi) <= 0

(* bytes, least significant first *)
OfBytes(b) == FoldLeft(LAMBDA acc, i: MulAddSmall(acc, 256, b[Len(b) + 1 - i]), <<>>, [i \in 1..Len(b) |-> i])
OfTwos(b) ==
    IF b[Len(b)] < 128 THEN Mk(FALSE, OfBytes(b))
    ELSE Mk(TRUE, SubM(Pow2M(8 * Len(b)), OfBytes(b)))

(* decimal text as character codes *)
DecText(a) ==
    IF a.m = <<>> THEN <<48>>
    ELSE (IF a.neg THEN <<45>> ELSE <<>>) \o [i \in 1..Len(a.m) |-> 48 + a.m[Len(a.m) + 1 - i]]

(* digits given most significant first in some base up to 16 *)
OfDigits(ds, base) == Mk(FALSE, FoldLeft(LAMBDA acc, x: MulAddSmall(acc, base, x), <<>>, ds))
=============================================================================
