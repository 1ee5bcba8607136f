-------------------------------- MODULE Simson --------------------------------
(* SIMSON plane and velocity files: what they contain and what reading them gives.

   A file is a sequence of words [k, v]: "i" integers and "m" record marks (4 bytes each), "d" numbers (8
   bytes). Numbers are given in units of 1/1024. A record is its words between two marks that give their
   size in bytes. A velocity file of nx x ny x nz points holds, per component and scalar, for every spanwise
   wave number and every height a record of nx/2 complex coefficients; only their mean (both wave numbers
   zero) is interpreted here.                                                                             *)
EXTENDS Util

Size(w) == IF w.k = "d" THEN 8 ELSE 4
I(v) == [k |-> "i", v |-> v]
D(v) == [k |-> "d", v |-> v]
Bytes(ws) == LET n == Cardinality({j \in DOMAIN ws : ws[j].k = "d"}) IN 8 * n + 4 * (Len(ws) - n)
Mark(n) == <<[k |-> "m", v |-> n]>>
Rec(ws) == Mark(Bytes(ws)) \o ws \o Mark(Bytes(ws))
Ints(s) == [j \in DOMAIN s |-> I(s[j])]
Nums(s) == [j \in DOMAIN s |-> D(s[j])]

Product(s) == IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3]

(* ---------------- planes ---------------- *)
(* x: one array per dimension, d: the data, all with the first index running fastest *)
PlaneFile(nn, x, d) ==
  Rec(Ints(nn)) \o Concat([j \in DOMAIN nn |-> Rec(Nums(x[j]))]) \o Rec(Nums(d))

(* ---------------- velocity ---------------- *)
(* h: [re, xl, zl, t, pr, m, n, sym, fl, dstar, extra]; extra is the record some flow types have *)
ExtraLen(fl, nscal) ==
  CASE fl = -1 -> 1 [] fl = -2 -> 2 [] fl \in 6..9 -> 4 [] Abs(fl) = 20 -> nscal [] OTHER -> -1
HasExtra(fl) == fl \in {-1, -2, -20, 20} \cup 6..9
(* the layout of flow types 4 and 5 is not specified *)
KnownType(fl) == fl \notin {4, 5}

Interleave(a, b) == [j \in 1..2 * Len(a) |-> IF j % 2 = 1 THEN a[(j + 1) \div 2] ELSE b[j \div 2]]
DnsHeader(h) ==
  Rec(<<D(h.re), I(0), D(h.xl), D(h.zl), D(h.t), D(0)>> \o Nums(Interleave(h.pr, h.m)))
  \o Rec(<<I(h.n[1]), I(h.n[2]), I(h.n[3]), I(h.sym)>>)
  \o Rec(<<I(h.fl), D(h.dstar)>>)
  \o (IF HasExtra(h.fl) THEN Rec(Nums(h.extra)) ELSE <<>>)
(* c[v][z][y] : nx numbers *)
DnsData(h, c) ==
  Concat([v \in 1..3 + Len(h.pr) |-> Concat([z \in 1..h.n[3] |-> Concat([y \in 1..h.n[2] |-> Rec(Nums(c[v][z][y]))])])])
DnsFile(h, c) == DnsHeader(h) \o DnsData(h, c)

(* the wall-normal axis is turned around, hence the sign of the second component *)
Mean(h, c, v, y) == (IF v = 2 THEN -1 ELSE 1) * c[v][1][y][1]
(* height of the box, 2 / dstar, in the same units *)
Height(h) == (2 * 1024 * 1024) \div h.dstar
GridX(h, i) == (i - 1) * (h.xl \div h.n[1])
GridZ(h, k) == (2 * (k - 1) - h.n[3]) * (h.zl \div (2 * h.n[3]))
(* a wall-normal grid y is spaced like the cosine: 1 - 2 y / Ly in 1/10000 at equal angles *)
Cosines(c) ==
  LET n == Len(c) IN
  /\ c[1] = 10000 /\ c[n] = -10000
  /\ \A j \in 1..n - 1 : c[j] > c[j + 1]
  /\ \A j \in 2..n - 1 : Abs(10000 * (c[j - 1] + c[j + 1]) - 2 * c[2] * c[j]) <= 40000
  /\ \A j \in 1..n : Abs(c[j] + c[n + 1 - j]) <= 1

(* ---------------- reading ---------------- *)
(* A reader takes words one after another from a file that may have been cut. Only the last mark of the
   file is never needed.                                                                                  *)
Needed(file) == Len(file) - 1
NeededBytes(file) == Bytes(file) - 4

(* reading words of a plane: "short" when they run out *)
Short == [st |-> "short"]
RECURSIVE TakeAll(_, _, _, _)
TakeAll(w, at, n, len) ==       \* n records of len numbers from position `at`: <<position, arrays>>
  IF n = 0 THEN <<at, <<>>>>
  ELSE LET r == TakeAll(w, at, n - 1, len) IN
       IF r[1] = 0 \/ r[1] + len > Len(w) THEN <<0, <<>>>>
       ELSE <<r[1] + len + 2, Append(r[2], [j \in 1..len |-> w[r[1] + j].v])>>
ReadPlane(w) ==
  IF Len(w) = 0 THEN Short
  ELSE LET nd == w[1].v \div 4 IN
  IF Len(w) < 1 + nd THEN Short
  ELSE LET nn == [j \in 1..nd |-> w[1 + j].v]
           r == TakeAll(w, nd + 3, nd + 1, Product(nn)) IN
       IF r[1] = 0 THEN Short ELSE [st |-> "ok", nn |-> nn, x |-> SubSeq(r[2], 1, nd), d |-> r[2][nd + 1]]
===============================================================================
