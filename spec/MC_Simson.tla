------------------------------ MODULE MC_Simson ------------------------------
(* Every plane file, read word by word, gives back what was written; cut anywhere, reading it fails
   unless only the last mark is missing. Velocity files have the length their header announces.      *)
EXTENDS Simson
CONSTANTS MaxN, MaxV
VARIABLES nn, x, d, cut

Arrays(n, base) == {[j \in 1..n |-> base + ((j * s) % MaxV)] : s \in 1..MaxV - 1}
Init == /\ nn \in UNION {[1..k -> 1..MaxN] : k \in 1..3}
        /\ x \in [1..Len(nn) -> Arrays(Product(nn), 10)]
        /\ d \in Arrays(Product(nn), 0)
        /\ cut \in 0..Len(PlaneFile(nn, x, d))
Next == UNCHANGED <<nn, x, d, cut>>
Spec == Init /\ [][Next]_<<nn, x, d, cut>>

CutReading ==
  LET f == PlaneFile(nn, x, d) r == ReadPlane(SubSeq(f, 1, cut)) IN
  IF cut >= Needed(f) THEN r = [st |-> "ok", nn |-> nn, x |-> x, d |-> d] ELSE r = Short
(* the length of a velocity file follows from its header *)
HeaderLength(fl, ns) ==
  LET h == [re |-> 1, xl |-> 4, zl |-> 4, t |-> 7, pr |-> [j \in 1..ns |-> j], m |-> [j \in 1..ns |-> j], n |-> <<2, 3, 2>>, sym |-> 0,
            fl |-> fl, dstar |-> 1024, extra |-> [j \in 1..(IF HasExtra(fl) THEN ExtraLen(fl, ns) ELSE 0) |-> j]]
      c == [v \in 1..3 + ns |-> [z \in 1..2 |-> [y \in 1..3 |-> <<v, y>>]]]
      f == DnsFile(h, c)
  IN Bytes(f) = 52 + 16 * ns + 24 + 20 + (IF HasExtra(fl) THEN 8 + 8 * ExtraLen(fl, ns) ELSE 0) + (3 + ns) * 6 * 24
     /\ f[1].v = 44 + 16 * ns
ASSUME \A fl \in {-20, -2, -1, 1, 2, 3, 6, 7, 8, 9, 20} : \A ns \in 0..3 : HeaderLength(fl, ns)
===============================================================================
