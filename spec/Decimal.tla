------------------------------- MODULE Decimal -------------------------------
(* Nonnegative fixed-point numbers: sequences of Total digits to the base Base, least first, of
   which Frac come after the point. Products are rounded down or up, so that sums of products
   are known to lie between two numbers.

   On top of them, the lengths of a graded row of cells: l0, x*l0, ..., x^(n-1)*l0.            *)
EXTENDS Util
CONSTANTS Base, Frac, Total

Zero == [i \in 1..Total |-> 0]
One == [i \in 1..Total |-> IF i = Frac + 1 THEN 1 ELSE 0]
Ulp == [i \in 1..Total |-> IF i = 1 THEN 1 ELSE 0]
Huge == [i \in 1..Total |-> Base - 1]                       \* what does not fit

RECURSIVE CarryTo(_, _)
(* digits from possibly larger ones: sequence and what is carried out of it *)
CarryTo(s, n) ==
  IF n = 0 THEN <<<<>>, 0>>
  ELSE LET r == CarryTo(s, n - 1) v == s[n] + r[2] IN <<Append(r[1], v % Base), v \div Base>>
Carry(s) == CarryTo(s, Len(s))
Fit(s) ==
  LET r == Carry(s) IN
  IF r[2] > 0 \/ \E i \in (Total + 1)..Len(r[1]) : r[1][i] > 0 THEN Huge ELSE SubSeq(r[1], 1, Total)

RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == LeqFrom(a, b, Total)

Add(a, b) == IF a = Huge \/ b = Huge THEN Huge ELSE Fit([i \in 1..Total |-> a[i] + b[i]])
RECURSIVE BorrowTo(_, _, _)
BorrowTo(a, b, n) ==
  IF n = 0 THEN <<<<>>, 0>>
  ELSE LET r == BorrowTo(a, b, n - 1) v == a[n] - b[n] - r[2] IN
       IF v < 0 THEN <<Append(r[1], v + Base), 1>> ELSE <<Append(r[1], v), 0>>
(* the difference, zero when it would be negative *)
Less(a, b) == LET r == BorrowTo(a, b, Total) IN IF r[2] = 1 THEN Zero ELSE r[1]

RECURSIVE DotTo(_, _, _, _)
DotTo(a, b, k, i) == IF i = 0 THEN 0
                     ELSE DotTo(a, b, k, i - 1) + (IF k + 1 - i \in 1..Total THEN a[i] * b[k + 1 - i] ELSE 0)
(* all digits of the product, with 2*Frac of them after the point *)
Product(a, b) == Carry([k \in 1..(2 * Total) |-> IF k < 2 * Total THEN DotTo(a, b, k, Total) ELSE 0])[1]
Down(a, b) == IF a = Huge \/ b = Huge THEN Huge ELSE LET p == Product(a, b) IN Fit(SubSeq(p, Frac + 1, 2 * Total))
Up(a, b) ==
  IF a = Huge \/ b = Huge THEN Huge
  ELSE LET p == Product(a, b) q == Fit(SubSeq(p, Frac + 1, 2 * Total)) IN
       IF \E i \in 1..Frac : p[i] > 0 THEN Add(q, Ulp) ELSE q

RECURSIVE RowDown(_, _), RowUp(_, _)
(* 1 + x + ... + x^(n-1), from below and from above *)
RowDown(x, n) == IF n = 1 THEN One ELSE Add(One, Down(x, TLCEval(RowDown(x, n - 1))))
RowUp(x, n) == IF n = 1 THEN One ELSE Add(One, Up(x, TLCEval(RowUp(x, n - 1))))

(* the ratio with which n cells starting with length a fill length b is between lo and hi:
   the sum increases with the ratio *)
RatioBetween(lo, hi, a, b, n) == Leq(Down(a, RowDown(lo, n)), b) /\ Leq(b, Up(a, RowUp(hi, n)))
===============================================================================
