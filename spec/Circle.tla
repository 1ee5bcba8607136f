------------------------------- MODULE Circle -------------------------------
(* What a disc of linear elements must be. Vertices are numbered by position: an element lists the
   numbers of its four corners (v), and `at` gives the coordinates of each number in units of R-ths
   of the radius, rounded; turnAt may give them on a finer grid and shape(i) those of element i on its own scale. The same predicates judge discs made by the library and, in MC_Circle, a
   disc assembled from blocks with the merge operation of Mesh. *)
EXTENDS Mesh

EdgeV(m, i, k) == LET c == CornersOfFace(2, k) IN {m.el[i].v[c[1]], m.el[i].v[c[2]]}
Sides(m) == (1..m.nel) \X (1..4)
(* all pairs <<first face, second face>> (coded) that are the same segment; 0 when alone *)
Others(m) ==
  LET key == [x \in Sides(m) |-> LET s == EdgeV(m, x[1], x[2]) IN SetMin(s) * 100000 + SetMax(s)]
  IN [x \in Sides(m) |-> {y \in Sides(m) : y # x /\ key[y] = key[x]}]

Joined(m, x, y) == \A b \in 1..m.nbc : LET c == m.el[x[1]].bc[b][x[2]] IN T(c) = "E" /\ LnkE(c) = y[1] /\ LnkF(c) = y[2]
Empty(m, x) == \A b \in 1..m.nbc : T(m.el[x[1]].bc[b][x[2]]) = ""

(* corners in counterclockwise order: 1, 2, 4, 3 *)
Ccw == <<1, 2, 4, 3>>
Cross3(at, a, b, c) == (at[b][1] - at[a][1]) * (at[c][2] - at[b][2]) - (at[b][2] - at[a][2]) * (at[c][1] - at[b][1])
(* four corners, each <<x, y>> *)
Positive(c) == \A q \in 1..4 : Cross3(c, Ccw[q], Ccw[(q % 4) + 1], Ccw[((q + 1) % 4) + 1]) > 0
(* twice the area *)
Area2(at, e) == Abs(Cross3(at, e.v[1], e.v[2], e.v[4])) + Abs(Cross3(at, e.v[1], e.v[4], e.v[3]))
Turned(at, p, q, tol) == Abs(at[q][1] + at[p][2]) <= tol /\ Abs(at[q][2] - at[p][1]) <= tol

(* onRim(p): point p lies on the circle; rim cells carry a curvature <<"C", R>> when curved *)
DiscClauses(m, at, turnAt, Shape(_), ns, no, bc, ib, R, corner(_), tol, OnRim(_), curved) ==
  LET oth == Others(m)
      shared == {x \in Sides(m) : Cardinality(oth[x]) = 1}
      alone == {x \in Sides(m) : oth[x] = {}}
  IN
  << <<"number.of.elements", m.nel = ns * ns + 4 * ns * no>>,
     <<"orientation", \A i \in 1..m.nel : Positive(Shape(i))>>,
     <<"conforming", shared \cup alone = Sides(m)>>,
     <<"joined", ib => \A x \in shared : \A y \in oth[x] : Joined(m, x, y)>>,
     <<"left.empty", ~ib => \A x \in shared : Empty(m, x)>>,
     <<"rim.size", Cardinality(alone) = 4 * ns>>,
     <<"rim.round", \A x \in alone : \A p \in EdgeV(m, x[1], x[2]) : OnRim(at[p])>>,
     <<"rim.conditions", \A x \in alone : \A b \in 1..m.nbc : T(m.el[x[1]].bc[b][x[2]]) = bc[b]>>,
     <<"rim.curvature", curved => \A x \in alone : m.el[x[1]].cv[x[2]] = <<"C", R>>>>,
     <<"no.other.curvature", \A i \in 1..m.nel : \A j \in 1..12 :
          m.el[i].cv[j][1] # "" => (j <= 4 /\ <<i, j>> \in alone)>>,
     <<"number.of.curves", m.ncurv = NCurved(m) /\ (curved => m.ncurv = 4 * ns)>>,
     <<"square.corners", \A sx \in {1, -1} : \A sy \in {1, -1} : \E p \in DOMAIN at :
          corner(<<at[p][1] * sx, at[p][2] * sy>>)>>,
     <<"quarter.turns", LET turn == [p \in DOMAIN at |-> {q \in DOMAIN at : Turned(turnAt, p, q, tol)}] IN
          /\ \A p \in DOMAIN at : Cardinality(turn[p]) = 1
          /\ LET to == [p \in DOMAIN at |-> CHOOSE q \in turn[p] : TRUE] cells == {Range(m.el[i].v) : i \in 1..m.nel} IN
             \A i \in 1..m.nel : {to[p] : p \in Range(m.el[i].v)} \in cells>> >>
=============================================================================
