------------------------------ MODULE MC_Decimal ------------------------------
(* A row of cells built cell by cell: its length in fixed-point numbers, rounded down and rounded
   up, against the exact length in integers; and the laws of the fixed-point numbers.

   x is the ratio in units of the last digit; total/unit^(n-1) the exact sum of n cells.        *)
EXTENDS Decimal
CONSTANTS MaxX, MaxLen
VARIABLES x, n, lo, hi, total, power

RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Unit == Pow(Base, Frac)
RECURSIVE DigitsTo(_, _)
DigitsTo(v, k) == IF k = 0 THEN <<>> ELSE <<v % Base>> \o DigitsTo(v \div Base, k - 1)
Num2(v) == DigitsTo(v, Total)
RECURSIVE ValTo(_, _)
ValTo(a, k) == IF k = 0 THEN 0 ELSE ValTo(a, k - 1) + a[k] * Pow(Base, k - 1)
Val(a) == ValTo(a, Total)

Init == x \in 0..MaxX /\ n = 1 /\ lo = One /\ hi = One /\ total = 1 /\ power = 1
Next ==
  /\ n < MaxLen
  /\ n' = n + 1 /\ x' = x
  /\ lo' = Add(One, Down(Num2(x), lo)) /\ hi' = Add(One, Up(Num2(x), hi))
  /\ total' = power * Unit + x * total
  /\ power' = power * Unit
Spec == Init /\ [][Next]_<<x, n, lo, hi, total, power>>

(* lo <= total/power <= hi, and not much between them *)
Between ==
  hi # Huge => /\ Val(lo) * power <= total * Unit
               /\ total * Unit <= Val(hi) * power
SameAsRecursion == lo = RowDown(Num2(x), n) /\ hi = RowUp(Num2(x), n)
Monotone == (hi # Huge /\ n > 1) => Leq(hi, RowUp(Num2(x + 1), n)) /\ Leq(lo, RowDown(Num2(x + 1), n))
(* the ratio itself is found between its neighbours when the length is the exact one *)
Found ==
  (hi # Huge /\ lo = hi /\ n > 1 /\ x > 0) =>
    /\ RatioBetween(Num2(x), Num2(x), One, lo, n)
    /\ RatioBetween(Num2(x - 1), Num2(x + 1), One, lo, n)
    /\ ~RatioBetween(Num2(x + 2), Num2(x + 3), One, lo, n)
Laws ==
  n = 1 => \A y \in 0..MaxX :
    LET a == Num2(x) b == Num2(y) IN
    /\ Val(a) = x
    /\ Leq(a, b) = (x <= y)
    /\ Val(Add(a, b)) = x + y
    /\ Val(Less(a, b)) = (IF x < y THEN 0 ELSE x - y)
    /\ (x * y) \div Unit < Pow(Base, Total) - 1 =>
         /\ Val(Down(a, b)) = (x * y) \div Unit
         /\ Val(Up(a, b)) = (x * y) \div Unit + (IF (x * y) % Unit > 0 THEN 1 ELSE 0)
===============================================================================
