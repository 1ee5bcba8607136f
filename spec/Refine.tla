-------------------------------- MODULE Refine --------------------------------
(* Extruding a plane mesh with layers that get coarser away from splitting lines.

   A splitting function is [k, a, b, c, s]; its value at (x, y), of which only the sign matters, is
     line   a x + b y - c
     square max(|x - a|, |y - b|) - c
     disc   (x - a)^2 + (y - b)^2 - c
     saddle (x - a) (y - b) - c
   times s (1 or -1). A corner is inside when the value is at most zero.

   Every cell of the plane mesh belongs to the first function that does not have it wholly outside:
   wholly inside it, it is extruded ("plain"); otherwise it is split. What is left is extruded last.
   The number of layers is full in part number `high`, and is halved from each part to the next on
   either side of it; the split cells join four layers of their finer side to two of the other.       *)
EXTENDS Mesh

Value(f, x, y) ==
  f.s * (CASE f.k = "line" -> f.a * x + f.b * y - f.c
           [] f.k = "square" -> Max2(Abs(x - f.a), Abs(y - f.b)) - f.c
           [] f.k = "disc" -> Sq(x - f.a) + Sq(y - f.b) - f.c
           [] f.k = "saddle" -> (x - f.a) * (y - f.b) - f.c)
Inside(f, e, q) == Value(f, e.pos[1][q], e.pos[2][q]) <= 0
InsideSet(f, e) == {q \in 1..4 : Inside(f, e, q)}

(* <<0, k>>: plain cell of part k; <<1, k>>: split along line k (from 0) *)
RECURSIVE PartFrom(_, _, _)
PartFrom(funs, e, k) ==
  IF k > Len(funs) THEN <<0, k - 1>>
  ELSE LET in == InsideSet(funs[k], e) IN
       IF in = 1..4 THEN <<0, k - 1>> ELSE IF in = {} THEN PartFrom(funs, e, k + 1) ELSE <<1, k - 1>>
Part(funs, e) == PartFrom(funs, e, 1)

Sides == {{1, 2}, {2, 4}, {3, 4}, {1, 3}}           \* corners of the four edges
SideNo(S) == CHOOSE j \in 1..4 : Range(Edges(2)[j]) = S
(* corner at the other end of the edge that does not lie in the side S *)
Across(S, q) == CHOOSE p \in 1..4 : p # q /\ {p, q} \in Sides /\ (p \in S) # (q \in S)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* layers of a part, as a step in the list of the finest ones; for split cells, of their finer side *)
PlainStep(k, high) == Pow2(Abs(k - high))
MidStep(k, high) == IF k < high THEN Pow2(high - k - 1) ELSE Pow2(k - high)
LayersFit(nz, nsplit, high) ==
  \A k \in 0..nsplit : (nz % PlainStep(k, high)) = 0 /\ (k < nsplit => (nz % (4 * MidStep(k, high))) = 0)
Splittable(funs, e) == LET p == Part(funs, e) IN p[1] = 1 => InsideSet(funs[p[2] + 1], e) \in Sides

Refinable(m, nz, b1, b2, funs, npar, high) ==
  /\ Extrudable(m, b1, b2)
  /\ npar = Len(funs)
  /\ LayersFit(nz, Len(funs), high)
  /\ \A i \in DOMAIN m.el : Splittable(funs, m.el[i])

(* ---------------- the cells ---------------- *)
(* mid: middle of each edge of the cell, <<x, y>> *)
At(e, q) == <<e.pos[1][q], e.pos[2][q]>>
(* one plain cell per layer *)
PlainCells(e, i, z, step) ==
  {[pos |-> [c \in 1..8 |-> Append(At(e, ((c - 1) % 4) + 1), z[1 + step * (t + (c - 1) \div 4)])],
    par |-> i, sub |-> -1, t |-> t, over |-> <<1, 2, 3, 4, 0, 0>>] : t \in 0..(((Len(z) - 1) \div step) - 1)}

(* the six cells for four layers; F: side of fine layers, lo: edge number of it, hi: of the opposite one *)
SixCells(e, i, z, step, t, F, mid) ==
  LET lo == SideNo(F) hi == SideNo((1..4) \ F)
      Z(n) == z[1 + step * (4 * t + n)]
      M(q) == mid[SideNo({q, Across(F, q)})]
      (* what the corner q of cell s is at the lower (b = 0) or upper (b = 1) end *)
      full(s, b) == (s = 2 /\ b = 1) \/ (s = 3 /\ b = 0)       \* reaches to the coarse side
      XY(s, b, q) == IF s \in {1, 4} THEN (IF q \in F THEN M(q) ELSE At(e, q))
                     ELSE (IF q \in F \/ full(s, b) THEN At(e, q) ELSE M(q))
      ZZ(s, b, q) == CASE s = 0 -> Z(b) [] s = 2 -> Z(1 + b) [] s = 3 -> Z(2 + b) [] s = 5 -> Z(3 + b)
                       [] s = 1 -> IF b = 0 THEN Z(0) ELSE IF q \in F THEN Z(1) ELSE Z(2)
                       [] s = 4 -> IF b = 1 THEN Z(4) ELSE IF q \in F THEN Z(3) ELSE Z(2)
      over(s) == [k \in 1..6 |-> IF k > 4 THEN 0
                                 ELSE IF k = lo THEN (IF s \in {1, 4} THEN 0 ELSE lo)
                                 ELSE IF k = hi THEN (IF s \in {1, 4} THEN hi ELSE 0) ELSE k]
  IN {[pos |-> [c \in 1..8 |-> LET q == ((c - 1) % 4) + 1 b == (c - 1) \div 4 IN Append(XY(s, b, q), ZZ(s, b, q))],
       par |-> i, sub |-> s, t |-> t, over |-> over(s)] : s \in 0..5}

(* mids[i][j]: middle of edge j of cell i *)
CellsOf(m, i, z, funs, high, mids) ==
  LET e == m.el[i] p == Part(funs, e) k == p[2] IN
  IF p[1] = 0 THEN PlainCells(e, i, z, PlainStep(k, high))
  ELSE LET in == InsideSet(funs[k + 1], e)
           F == IF k < high THEN (1..4) \ in ELSE in
           step == MidStep(k, high)
       IN UNION {SixCells(e, i, z, step, t, F, mids[i]) : t \in 0..(((Len(z) - 1) \div (4 * step)) - 1)}
Cells(m, z, funs, high, mids) == UNION {CellsOf(m, i, z, funs, high, mids) : i \in DOMAIN m.el}

(* ---------------- geometry of a mesh of hexahedra ---------------- *)
(* corners of each face, anticlockwise from outside *)
Cycle(k) == <<<<1, 2, 6, 5>>, <<2, 4, 8, 6>>, <<4, 3, 7, 8>>, <<3, 1, 5, 7>>, <<1, 3, 4, 2>>, <<5, 6, 8, 7>>>>[k]
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
(* twelve times the volume inside the (bilinear) faces *)
Volume12(p) ==
  LET r == [c \in 1..8 |-> Minus(p[c], p[1])]
      f(k) == LET c == Cycle(k) A == r[c[1]] B == r[c[2]] C == r[c[3]] D == r[c[4]] IN
              Det(A, B, C) + Det(A, C, D) + Det(A, B, D) + Det(B, C, D)
  IN f(1) + f(2) + f(3) + f(4) + f(5) + f(6)
(* every corner is right-handed *)
Upright(p) ==
  \A c \in 1..8 : LET q == c - 1 bx == q % 2 by == (q \div 2) % 2 bz == q \div 4
                      sx == IF bx = 0 THEN 1 ELSE -1 sy == IF by = 0 THEN 1 ELSE -1 sz == IF bz = 0 THEN 1 ELSE -1
                      X == Minus(p[c + sx], p[c]) Y == Minus(p[c + 2 * sy], p[c]) Z == Minus(p[c + 4 * sz], p[c])
                  IN sx * sy * sz * Det(X, Y, Z) > 0
FaceSet(p, k) == {p[c] : c \in Range(CornersOfFace(3, k))}
Area2D(e) ==    \* twice the area of a plane cell
  LET x == e.pos[1] y == e.pos[2] IN
  Abs((x[4] - x[1]) * (y[3] - y[2]) - (x[3] - x[2]) * (y[4] - y[1]))

(* twin[i][k]: <<j, l>>, or <<>>; it says exactly which faces of the cells coincide *)
TwinsRight(P, twin) ==
  /\ \A i \in DOMAIN P : \A k \in 1..6 : Cardinality(FaceSet(P[i], k)) = 4 /\
       (twin[i][k] # <<>> => LET x == twin[i][k] IN
          /\ x[1] # i /\ twin[x[1]][x[2]] = <<i, k>> /\ FaceSet(P[x[1]], x[2]) = FaceSet(P[i], k))
  /\ LET n == 6 * Len(P)
         two == Cardinality({<<i, k>> \in (DOMAIN P) \X (1..6) : twin[i][k] # <<>>})
     IN Cardinality({FaceSet(P[x[1]], x[2]) : x \in (DOMAIN P) \X (1..6)}) = n - (two \div 2)
===============================================================================
