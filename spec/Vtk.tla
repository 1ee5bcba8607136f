--------------------------------- MODULE Vtk ---------------------------------
(* Fields as unstructured grids of a visualisation toolkit: points, cells and arrays.

   m is a data object of Field (el[e][g][c] = values with x varying fastest).                *)
EXTENDS Field

(* the points of a direction that are taken *)
Taken(n, down) == IF down /\ n > 1 THEN <<1, n>> ELSE [i \in 1..n |-> i]
Counts(lr1, down) == [d \in 1..3 |-> Len(Taken(lr1[d], down))]
(* places of an element's points in its arrays, in the order of the grid's points *)
Places(lr1, down) ==
  LET c == Counts(lr1, down) t == [d \in 1..3 |-> Taken(lr1[d], down)] IN
  [p \in 1..(c[1] * c[2] * c[3]) |->
     LET i == (p - 1) % c[1] j == ((p - 1) \div c[1]) % c[2] k == (p - 1) \div (c[1] * c[2]) IN
     t[1][i + 1] + (t[2][j + 1] - 1) * lr1[1] + (t[3][k + 1] - 1) * lr1[1] * lr1[2]]

(* sub-blocks of an element: the first of its points' grid indices, x fastest *)
SubBlocks(c) ==
  LET nz == IF c[3] > 1 THEN c[3] - 1 ELSE 1 IN
  [s \in 1..((c[1] - 1) * (c[2] - 1) * nz) |->
     <<(s - 1) % (c[1] - 1), ((s - 1) \div (c[1] - 1)) % (c[2] - 1), (s - 1) \div ((c[1] - 1) * (c[2] - 1))>>]
(* corners of a cell: around the lower side, then around the upper one *)
Around == << <<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>> >>
Corners(c) == IF c[3] > 1 THEN 8 ELSE 4
CellType(c) == IF c[3] > 1 THEN 12 ELSE 9        \* hexahedron, quadrilateral
(* points are counted from zero, element after element *)
CellAt(c, e, b) ==
  [v \in 1..Corners(c) |-> (e - 1) * (c[1] * c[2] * c[3]) + (b[1] + Around[v][1]) + (b[2] + Around[v][2]) * c[1]
                            + (b[3] + Around[v][3]) * (c[1] * c[2])]

Grid(m, down) ==
  LET c == Counts(m.lr1, down)
      pl == TLCEval(Places(m.lr1, down))
      bl == TLCEval(SubBlocks(c))
      np == Len(pl)
      nb == Len(bl)
      n == Len(m.el)
      of(q, g, k) == m.el[((q - 1) \div np) + 1][g][k][pl[((q - 1) % np) + 1]]
      column(g, k) == [q \in 1..(n * np) |-> of(q, g, k)]
  IN
  [points |-> [q \in 1..(n * np) |-> [d \in 1..3 |-> of(q, 1, d)]],
   cells |-> [s \in 1..(n * nb) |-> CellAt(c, ((s - 1) \div nb) + 1, bl[((s - 1) % nb) + 1])],
   type |-> CellType(c),
   velocity |-> [q \in 1..(n * np) |-> [d \in 1..3 |-> of(q, 2, d)]],
   scalars |-> (IF m.nv[3] > 0 THEN << <<"pres", column(3, 1)>> >> ELSE <<>>)
               \o (IF m.nv[4] > 0 THEN << <<"temp", column(4, 1)>> >> ELSE <<>>)
               \o [s \in 1..m.nv[5] |-> <<"scal_" \o ToString(s), column(5, s)>>]]
===============================================================================
