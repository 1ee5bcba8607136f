-------------------------------- MODULE Mesh --------------------------------
(* Meshes of linear elements and the operations of pymech on them.

   A mesh is [ndim, nel, lr1, nv, nbc, ncurv, elmap, el]; an element is
     pos : <<x, y, z>>, each the coordinates of the corners in the order x + 2y + 4z
     cv  : 12 cells <<type, p1..p5>>, one per edge
     bc  : per field 6 cells <<type, own element, own face, p1..p5>>, one per face; for internal ("E")
           and periodic ("P") conditions p1 and p2 are the element and face at the other side
   Coordinates are integers: positions on a lattice whose unit the driver chooses. *)
EXTENDS Util

E0 == <<"", 0, 0, 0, 0, 0, 0, 0>>
C0 == <<"", 0, 0, 0, 0, 0>>
T(c) == c[1]
OwnE(c) == c[2]
OwnF(c) == c[3]
LnkE(c) == c[4]
LnkF(c) == c[5]
Linked(c) == c[1] \in {"E", "P"}

NFace(m) == 2 * m.ndim
CornersOfFace(nd, k) ==
  IF nd = 2 THEN <<<<1, 2>>, <<2, 4>>, <<3, 4>>, <<1, 3>>, <<1, 2, 3, 4>>, <<1, 2, 3, 4>>>>[k]
            ELSE <<<<1, 2, 5, 6>>, <<2, 4, 6, 8>>, <<3, 4, 7, 8>>, <<1, 3, 5, 7>>, <<1, 2, 3, 4>>, <<5, 6, 7, 8>>>>[k]
Edges(nd) == <<<<1, 2>>, <<2, 4>>, <<4, 3>>, <<3, 1>>>> \o
  (IF nd = 2 THEN <<>> ELSE <<<<5, 6>>, <<6, 8>>, <<8, 7>>, <<7, 5>>, <<1, 5>>, <<2, 6>>, <<4, 8>>, <<3, 7>>>>)

Sq(x) == x * x
(* four times the centre of face k *)
Centre4(nd, e, k) ==
  LET c == CornersOfFace(nd, k) IN
  [d \in 1..3 |-> IF Len(c) = 2 THEN 2 * (e.pos[d][c[1]] + e.pos[d][c[2]])
                  ELSE e.pos[d][c[1]] + e.pos[d][c[2]] + e.pos[d][c[3]] + e.pos[d][c[4]]]
(* square of the length of the shortest edge *)
Edge2(nd, e) ==
  SetMin({Sq(e.pos[1][c[1]] - e.pos[1][c[2]]) + Sq(e.pos[2][c[1]] - e.pos[2][c[2]])
          + Sq(e.pos[3][c[1]] - e.pos[3][c[2]]) : c \in Range(Edges(nd))})
Dist16(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])     \* of two centres, times 16
(* distance of two centres at most num/den times the square root of e2; both sides far below 2^31 *)
Near(a, b, e2, num, den) ==
  /\ Abs(a[1] - b[1]) < 10000 /\ Abs(a[2] - b[2]) < 10000 /\ Abs(a[3] - b[3]) < 10000
  /\ Dist16(a, b) <= (16 * num * num * e2) \div (den * den)

Centres(m) == [i \in 1..m.nel |-> [k \in 1..NFace(m) |-> Centre4(m.ndim, m.el[i], k)]]
Scales(m) == [i \in 1..m.nel |-> Edge2(m.ndim, m.el[i])]

NCurved(m) == Cardinality({<<i, j>> \in (1..m.nel) \X (1..12) : m.el[i].cv[j][1] # ""})

(* ---------------- bookkeeping ---------------- *)
BookCounts(m) == m.nel = Len(m.el)
BookMap(m) == Len(m.elmap) = m.nel /\ IsPerm(m.elmap)
BookCurv(m) == m.ncurv = NCurved(m)
BookFields(m) == \A i \in DOMAIN m.el : Len(m.el[i].bc) = m.nbc
BookOwn(m) == \A i \in DOMAIN m.el : \A b \in DOMAIN m.el[i].bc : \A k \in 1..NFace(m) :
                LET c == m.el[i].bc[b][k] IN OwnE(c) \in {0, i} /\ OwnF(c) \in {0, k}
(* every internal or periodic link is answered *)
Answered(m, b, i, k) ==
  LET c == m.el[i].bc[b][k] IN
  /\ LnkE(c) \in 1..Len(m.el) /\ LnkF(c) \in 1..NFace(m)
  /\ LET d == m.el[LnkE(c)].bc[b][LnkF(c)] IN T(d) = T(c) /\ LnkE(d) = i /\ LnkF(d) = k
LinksOk(m) == \A i \in DOMAIN m.el : \A b \in DOMAIN m.el[i].bc : \A k \in 1..NFace(m) :
                Linked(m.el[i].bc[b][k]) => Answered(m, b, i, k)

NPoints(m) == m.lr1[1] * m.lr1[2] * m.lr1[3]
(* the corners of an element with any number of points *)
CornerEl(m, i) ==
  LET lx == m.lr1[1] ly == m.lr1[2] lz == m.lr1[3] e == m.el[i]
      at(q) == LET p == q - 1 IN 1 + (lx - 1) * (p % 2) + lx * (ly - 1) * ((p \div 2) % 2) + lx * ly * (lz - 1) * (p \div 4)
  IN [e EXCEPT !.pos = [d \in 1..3 |-> [q \in 1..(IF m.ndim = 2 THEN 4 ELSE 8) |-> @[d][at(q)]]]]

WellFormed(m) ==
  /\ m.ndim \in {2, 3} /\ BookCounts(m) /\ BookMap(m) /\ BookFields(m)
  /\ \A i \in DOMAIN m.el : /\ \A d \in 1..3 : Len(m.el[i].pos[d]) \in {NPoints(m), IF m.ndim = 2 THEN 4 ELSE 8}
                            /\ Len(m.el[i].cv) = 12 /\ \A j \in 1..12 : Len(m.el[i].cv[j]) = 6
                            /\ \A b \in DOMAIN m.el[i].bc : Len(m.el[i].bc[b]) = 6
                                 /\ \A k \in 1..6 : Len(m.el[i].bc[b][k]) = 8

(* ---------------- checks ---------------- *)
ConnectivityOk(m, num, den) ==
  LET fc == Centres(m) sc == Scales(m) IN
  \A i \in DOMAIN m.el : \A b \in 1..m.nbc : \A k \in 1..NFace(m) :
    LET c == m.el[i].bc[b][k] IN
    Linked(c) => /\ LnkE(c) \in 1..m.nel /\ LnkF(c) \in 1..NFace(m)
                 /\ Answered(m, b, i, k)
                 /\ (T(c) = "E") => Near(fc[i][k], fc[LnkE(c)][LnkF(c)], Min2(sc[i], sc[LnkE(c)]), num, den)
AllPresent(m) == \A i \in DOMAIN m.el : \A b \in 1..m.nbc : \A k \in 1..NFace(m) : T(m.el[i].bc[b][k]) # ""

(* ---------------- shifting ---------------- *)
ShiftCell(c, off, min, own) ==
  LET c1 == IF Linked(c) /\ LnkE(c) > min THEN [c EXCEPT ![4] = @ + off] ELSE c IN
  IF own /\ OwnE(c) > min THEN [c1 EXCEPT ![2] = @ + off] ELSE c1
(* min: index of the first element concerned, counted from zero *)
Shift(m, off, min) ==
  [m EXCEPT !.el = [i \in DOMAIN @ |-> [@[i] EXCEPT !.bc = [b \in DOMAIN @ |-> [k \in DOMAIN @[b] |->
     IF k <= NFace(m) THEN ShiftCell(@[b][k], off, min, i > min) ELSE @[b][k]]]]]]

(* ---------------- merging ---------------- *)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o SortSet(S \ {x})

Link(els, b, i, k, t, j, l) == [els EXCEPT ![i].bc[b][k] = [@ EXCEPT ![1] = t, ![4] = j, ![5] = l]]
RECURSIVE LinkAll(_, _, _, _, _, _, _)
LinkAll(els, n, i, k, t, j, l) ==      \* both ways, in fields 1..n
  IF n = 0 THEN els ELSE Link(Link(LinkAll(els, n - 1, i, k, t, j, l), n, i, k, t, j, l), n, j, l, t, i, k)

Joinable(t, ie) == t # "E" /\ ~(ie /\ t = "")
(* join face k of element i (condition t0 when its turn comes) with the faces in cand, coded 10*j+l *)
RECURSIVE JoinFace(_, _, _, _, _, _, _)
JoinFace(s, nbc, i, k, t0, cand, ie) ==
  IF cand = <<>> THEN s
  ELSE LET j == cand[1] \div 10 l == cand[1] % 10 t1 == T(s.els[j].bc[1][l]) IN
       JoinFace(IF ~Joinable(t1, ie) THEN s
                ELSE LET c0 == s.els[i].bc[1][k] c1 == s.els[j].bc[1][l]
                         e1 == IF t0 = "P" /\ t1 = "P"
                               THEN LinkAll(s.els, nbc, LnkE(c0), LnkF(c0), "P", LnkE(c1), LnkF(c1)) ELSE s.els
                     IN [els |-> LinkAll(e1, nbc, i, k, "E", j, l), n |-> s.n + 1],
                nbc, i, k, t0, Tail(cand), ie)
RECURSIVE JoinAll(_, _, _, _, _)
JoinAll(s, nbc, todo, cand, ie) ==
  IF todo = <<>> THEN s
  ELSE LET i == todo[1] \div 10 k == todo[1] % 10 t0 == T(s.els[i].bc[1][k]) IN
       JoinAll(IF Joinable(t0, ie) THEN JoinFace(s, nbc, i, k, t0, cand[<<i, k>>], ie) ELSE s, nbc, Tail(todo), cand, ie)

Mergeable(A, B) == A.ndim = B.ndim /\ A.lr1[1] = B.lr1[1]
(* result: the merged mesh and the number of pairs joined *)
Merge(A, B, num, den, ie, ia) ==
  LET n1 == A.nel
      M == [A EXCEPT !.nel = n1 + B.nel, !.ncurv = @ + B.ncurv,
                     !.elmap = @ \o [i \in DOMAIN B.elmap |-> B.elmap[i] + n1],
                     !.el = @ \o Shift(B, n1, 0).el]
      nbc == Min2(A.nbc, B.nbc)
      fc == Centres(M) sc == Scales(M)
      cand == [x \in (n1 + 1..M.nel) \X (1..NFace(M)) |->
                 SortSet({10 * j + l : <<j, l>> \in
                   {y \in (1..n1) \X (1..NFace(M)) : Near(fc[x[1]][x[2]], fc[y[1]][y[2]], Min2(sc[x[1]], sc[y[1]]), num, den)}})]
      todo == SortSet({10 * x[1] + x[2] : x \in {y \in DOMAIN cand : cand[y] # <<>>}})
      r == JoinAll([els |-> M.el, n |-> 0], nbc, todo, cand, ie)
  IN IF nbc = 0 \/ ia THEN [m |-> M, n |-> 0] ELSE [m |-> [M EXCEPT !.el = r.els], n |-> r.n]

(* ---------------- internal conditions ---------------- *)
DeleteInternal(m) ==
  [m EXCEPT !.el = [i \in DOMAIN @ |-> [@[i] EXCEPT !.bc = [b \in DOMAIN @ |-> [k \in 1..6 |->
     IF T(@[b][k]) = "E" THEN E0 ELSE @[b][k]]]]]]
NInternal(m) == Cardinality({<<i, b, k>> \in (1..m.nel) \X (1..m.nbc) \X (1..6) : T(m.el[i].bc[b][k]) = "E"})

HasZeroEdge(m) == \E i \in DOMAIN m.el : Edge2(m.ndim, m.el[i]) = 0
RECURSIVE SetAll(_, _, _, _, _, _)
SetAll(els, n, i, k, j, l) ==
  IF n = 0 THEN els
  ELSE [SetAll(els, n - 1, i, k, j, l) EXCEPT
          ![i].bc[n][k] = [@ EXCEPT ![1] = "E", ![2] = i, ![3] = k, ![4] = j, ![5] = l],
          ![j].bc[n][l] = [@ EXCEPT ![1] = "E", ![2] = j, ![3] = l, ![4] = i, ![5] = k]]
RECURSIVE Connect(_, _, _, _)
Connect(s, nbc, todo, cand) ==       \* each face in turn takes its first free partner
  IF todo = <<>> THEN s
  ELSE LET x == <<todo[1] \div 10, todo[1] % 10>>
           free == IF x \in s.done THEN {} ELSE {y \in cand[x] : <<y \div 10, y % 10>> \notin s.done}
           y == SetMin(free) j == y \div 10 l == y % 10
       IN Connect(IF free = {} THEN s
                  ELSE [els |-> SetAll(s.els, nbc, x[1], x[2], j, l), done |-> s.done \cup {x, <<j, l>>}, n |-> s.n + nbc],
                  nbc, Tail(todo), cand)
GenerateInternal(m, num, den) ==
  LET fc == Centres(m) sc == Scales(m)
      free == {<<i, k>> \in (1..m.nel) \X (1..NFace(m)) : m.nbc > 0 /\ T(m.el[i].bc[1][k]) = ""}
      cand == [x \in free |-> {10 * y[1] + y[2] : y \in {z \in free : z[1] > x[1] /\
                 Near(fc[x[1]][x[2]], fc[z[1]][z[2]], Min2(sc[x[1]], sc[z[1]]), num, den)}}]
      todo == SortSet({10 * x[1] + x[2] : x \in {y \in free : cand[y] # {}}})
      r == Connect([els |-> m.el, done |-> {}, n |-> 0], m.nbc, todo, cand)
  IN [m |-> [m EXCEPT !.el = r.els], n |-> r.n]

(* ---------------- extracting ---------------- *)
(* keep: set of elements (from 1); the element map is left open *)
Keep(m, keep, ext) ==
  LET new == [i \in 1..m.nel |-> Cardinality({j \in keep : j <= i})]
      old == SortSet(keep)
      cell(c, i, k) ==
        IF k > NFace(m) THEN c
        ELSE LET c1 == [c EXCEPT ![2] = new[i]] IN
             IF ~Linked(c) THEN c1
             ELSE IF LnkE(c) \in keep THEN [c1 EXCEPT ![4] = new[LnkE(c)]]
             ELSE [c1 EXCEPT ![1] = ext, ![4] = 0, ![5] = 0]
      els == [n \in 1..Len(old) |-> [m.el[old[n]] EXCEPT !.bc =
                [b \in DOMAIN @ |-> [k \in 1..6 |-> cell(@[b][k], old[n], k)]]]]
      r == [m EXCEPT !.nel = Len(old), !.el = els, !.elmap = [i \in 1..Len(old) |-> i]]
  IN [r EXCEPT !.ncurv = NCurved(r)]

(* ---------------- extruding ---------------- *)
MixedEnds(b1, b2) == \E b \in DOMAIN b1 : (b1[b] = "P") # (b2[b] = "P")
Extrudable(m, b1, b2) == m.ndim = 2 /\ m.lr1 = <<2, 2, 1>> /\ m.nv[1] >= 2 /\ ~MixedEnds(b1, b2)
(* z: coordinates of the layers; ib: with internal conditions *)
Extrude(m0, z, b1, b2, ib) ==
  LET m == IF ib THEN m0 ELSE DeleteInternal(m0)
      n2 == m.nel nz == Len(z) - 1
      Two(i) == ((i - 1) % n2) + 1
      Lay(i) == (i - 1) \div n2
      pos(i) == <<m.el[Two(i)].pos[1] \o m.el[Two(i)].pos[1], m.el[Two(i)].pos[2] \o m.el[Two(i)].pos[2],
                  [c \in 1..8 |-> z[Lay(i) + (IF c <= 4 THEN 1 ELSE 2)]]>>
      cv(i) == [j \in 1..12 |->
                 IF j > 8 THEN m.el[Two(i)].cv[j]
                 ELSE LET c == m.el[Two(i)].cv[IF j <= 4 THEN j ELSE j - 4] IN
                      IF c[1] = "m" THEN [c EXCEPT ![4] = z[Lay(i) + (IF j <= 4 THEN 1 ELSE 2)]] ELSE c]
      side(b, i, k) == LET c == ShiftCell(m.el[Two(i)].bc[b][k], Lay(i) * n2, 0, TRUE) IN
                       IF ib THEN [c EXCEPT ![2] = i] ELSE c
      top(i) == i + (nz - 1) * n2
      low(b, i) ==
        IF Lay(i) = 0 THEN <<b1[b], i, 5, IF b1[b] = "P" THEN top(i) ELSE 0, IF b1[b] = "P" THEN 6 ELSE 0, 0, 0, 0>>
        ELSE IF ib THEN <<"E", i, 5, i - n2, 6, 0, 0, 0>> ELSE E0
      high(b, i) ==
        IF Lay(i) = nz - 1 THEN <<b2[b], i, 6, IF b2[b] = "P" THEN Two(i) ELSE 0, IF b2[b] = "P" THEN 5 ELSE 0, 0, 0, 0>>
        ELSE IF ib THEN <<"E", i, 6, i + n2, 5, 0, 0, 0>> ELSE E0
      el(i) == [pos |-> pos(i), cv |-> cv(i),
                bc |-> [b \in 1..m.nbc |-> [k \in 1..6 |->
                   IF k = 5 THEN low(b, i) ELSE IF k = 6 THEN high(b, i) ELSE side(b, i, k)]]]
      r == [m EXCEPT !.ndim = 3, !.lr1 = <<2, 2, 2>>, !.nv = <<3, 0, 0, 0, 0>>, !.nel = n2 * nz,
                     !.elmap = [i \in 1..n2 * nz |-> i], !.el = [i \in 1..n2 * nz |-> el(i)]]
  IN [r EXCEPT !.ncurv = NCurved(r)]

(* ---------------- boxes ---------------- *)
FieldsOf(nv) == (IF nv[2] > 0 THEN 1 ELSE 0) + (IF nv[4] > 0 THEN 1 ELSE 0) + nv[5]
(* bcs: <<xmin, xmax, ymin, ymax>>, each one condition per field *)
Box(nx, ny, x0, x1, y0, y1, nv, bcs, ib) ==
  LET num(i, j) == 1 + i + nx * j
      X(i) == x0 + ((x1 - x0) \div nx) * i
      Y(j) == y0 + ((y1 - y0) \div ny) * j
      I(n) == (n - 1) % nx
      J(n) == (n - 1) \div nx
      link(n, k, j, l) == IF ib THEN <<"E", n, k, j, l, 0, 0, 0>> ELSE E0
      wall(t, n, k, j, l) == IF t = "P" THEN <<"P", n, k, j, l, 0, 0, 0>> ELSE <<t, n, k, 0, 0, 0, 0, 0>>
      cell(b, n, k) ==
        LET i == I(n) j == J(n) IN
        CASE k = 1 -> IF j > 0 THEN link(n, 1, num(i, j - 1), 3) ELSE wall(bcs[3][b], n, 1, num(i, ny - 1), 3)
          [] k = 2 -> IF i < nx - 1 THEN link(n, 2, num(i + 1, j), 4) ELSE wall(bcs[2][b], n, 2, num(0, j), 4)
          [] k = 3 -> IF j < ny - 1 THEN link(n, 3, num(i, j + 1), 1) ELSE wall(bcs[4][b], n, 3, num(i, 0), 1)
          [] k = 4 -> IF i > 0 THEN link(n, 4, num(i - 1, j), 2) ELSE wall(bcs[1][b], n, 4, num(nx - 1, j), 2)
          [] OTHER -> E0
  IN [ndim |-> 2, nel |-> nx * ny, lr1 |-> <<2, 2, 1>>, nv |-> nv, nbc |-> FieldsOf(nv), ncurv |-> 0,
      elmap |-> [n \in 1..nx * ny |-> n],
      el |-> [n \in 1..nx * ny |->
        [pos |-> <<<<X(I(n)), X(I(n) + 1), X(I(n)), X(I(n) + 1)>>,
                   <<Y(J(n)), Y(J(n)), Y(J(n) + 1), Y(J(n) + 1)>>, <<0, 0, 0, 0>>>>,
         cv |-> [j \in 1..12 |-> C0],
         bc |-> [b \in 1..FieldsOf(nv) |-> [k \in 1..6 |-> cell(b, n, k)]]]]]
DefaultBcs(nv, bcs) == [s \in 1..4 |-> IF bcs[s] = <<>> THEN [b \in 1..FieldsOf(nv) |-> "P"] ELSE bcs[s]]

(* ---------------- mapping and rotating ---------------- *)
(* the maps the driver can ask for *)
MapPoint(t, x, y) ==
  CASE t.k = "affine" -> <<t.a * x + t.b * y + t.e, t.c * x + t.d * y + t.f>>
    [] t.k = "quad" -> <<x + t.a * y * y, y>>
    [] t.k = "cube" -> <<x, y + t.a * x * x * x + t.b * x>>
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN
                   IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
SqrtOf(n) == Root(n, 0, 46340)
EdgeEnds(nd, j) == Edges(nd)[j]
(* ---------------- edges of any element ---------------- *)
Corner(e, c) == <<e.pos[1][c], e.pos[2][c], e.pos[3][c]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Times(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Norm2(a) == Sq(a[1]) + Sq(a[2]) + Sq(a[3])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
(* twice the middle of edge j: half way, as stated ("m"), on the arc in the plane ("C"), or half way seen from
   the centre of a sphere ("s"); Exact when that is a point of the lattice *)
EdgeTwice(nd, e, j) ==
  LET c == Edges(nd)[j] a == Corner(e, c[1]) b == Corner(e, c[2]) p == e.cv[j] d == Minus(b, a) IN
  CASE p[1] = "m" -> <<2 * p[2], 2 * p[3], 2 * p[4]>>
    [] p[1] = "C" ->
       LET len2 == Sq(d[1]) + Sq(d[2]) R == Abs(p[2]) L == SqrtOf(len2) s == IF p[2] > 0 THEN 1 ELSE -1
           rise == 2 * R - SqrtOf(4 * R * R - len2) IN
       Plus(Plus(a, b), <<(s * rise * d[2]) \div L, -((s * rise * d[1]) \div L), 0>>)
    [] p[1] = "s" ->
       LET z == <<p[2], p[3], p[4]>> v == Minus(Plus(a, b), Times(2, z)) L == SqrtOf(Norm2(v)) IN
       Plus(Times(2, z), [k \in 1..3 |-> (2 * p[6] * v[k]) \div L])
    [] OTHER -> Plus(a, b)
EdgeExact(nd, e, j) ==
  LET c == Edges(nd)[j] a == Corner(e, c[1]) b == Corner(e, c[2]) p == e.cv[j] d == Minus(b, a) IN
  CASE p[1] = "C" ->
       LET len2 == Sq(d[1]) + Sq(d[2]) R == Abs(p[2]) L == SqrtOf(len2) h == SqrtOf(4 * R * R - len2) IN
       /\ R > 0 /\ L > 0 /\ L * L = len2 /\ h * h = 4 * R * R - len2
       /\ ((2 * R - h) * d[1]) % L = 0 /\ ((2 * R - h) * d[2]) % L = 0
    [] p[1] = "s" ->
       LET v == Minus(Plus(a, b), <<2 * p[2], 2 * p[3], 2 * p[4]>>) L == SqrtOf(Norm2(v)) IN
       L > 0 /\ L * L = Norm2(v) /\ \A k \in 1..3 : (2 * p[6] * v[k]) % L = 0
    [] OTHER -> p[1] \in {"", "m"}
(* the middle of an edge of a 2D element: x and y *)
MidTwice(e, j) == EdgeTwice(2, e, j)
Resolvable(e, j) == EdgeExact(2, e, j) /\ MidTwice(e, j)[1] % 2 = 0 /\ MidTwice(e, j)[2] % 2 = 0
Mid(e, j) == LET m == MidTwice(e, j) IN <<m[1] \div 2, m[2] \div 2>>
(* cv = <<radius, centre>> describes the circle through a, m and b; the radius is negative when the three
   points turn clockwise seen from above, and there is no circle when they are aligned *)
CircleThrough(a, m, b, cv) ==
  LET s1 == Minus(m, a) s2 == Minus(b, m) n == Cross(s1, s2) z == <<cv[2], cv[3], cv[4]>> IN
  IF n = <<0, 0, 0>> THEN cv = <<0, 0, 0, 0>>
  ELSE /\ Dot(Minus(z, a), n) = 0
       /\ \A p \in {a, m, b} : Norm2(Minus(z, p)) = Sq(cv[1])
       /\ (cv[1] < 0) = (n[3] < 0)
ToCurve(e, j, cu, bo) ==
  \/ cu \/ e.cv[j][1] # "" \/ (bo /\ Len(e.bc) > 0 /\ T(e.bc[1][j]) \notin {"", "E"})
MapMesh(m, t, cu, bo) ==
  LET el(i) ==
    LET e == m.el[i] im == [c \in 1..4 |-> MapPoint(t, e.pos[1][c], e.pos[2][c])] IN
    [e EXCEPT !.pos = <<[c \in 1..4 |-> im[c][1]], [c \in 1..4 |-> im[c][2]], @[3]>>,
              !.cv = [j \in 1..12 |-> IF j <= 4 /\ ToCurve(e, j, cu, bo)
                        THEN LET q == Mid(e, j) w == MapPoint(t, q[1], q[2]) IN
                             [@[j] EXCEPT ![1] = "m", ![2] = w[1], ![3] = w[2]]
                        ELSE @[j]]]
      r == [m EXCEPT !.el = [i \in DOMAIN @ |-> el(i)]]
  IN [r EXCEPT !.ncurv = NCurved(r)]
(* rotation about <<x0, y0>> by the angle of cosine c/d and sine s/d *)
Turn(c, s, d, x0, y0, x, y) ==
  <<x0 + (c * (x - x0) - s * (y - y0)) \div d, y0 + (s * (x - x0) + c * (y - y0)) \div d>>
TurnExact(c, s, d, x0, y0, x, y) ==
  (c * (x - x0) - s * (y - y0)) % d = 0 /\ (s * (x - x0) + c * (y - y0)) % d = 0
Rotate(m, c, s, d, x0, y0) ==
  [m EXCEPT !.el = [i \in DOMAIN @ |->
     LET e == @[i] n == Len(e.pos[1]) im == [q \in 1..n |-> Turn(c, s, d, x0, y0, e.pos[1][q], e.pos[2][q])] IN
     [e EXCEPT !.pos = <<[q \in 1..n |-> im[q][1]], [q \in 1..n |-> im[q][2]], @[3]>>,
               !.cv = [j \in 1..12 |-> IF @[j][1] \in {"m", "s"}
                  THEN LET w == Turn(c, s, d, x0, y0, @[j][2], @[j][3]) IN [@[j] EXCEPT ![2] = w[1], ![3] = w[2]]
                  ELSE @[j]]]]]
RotateExact(m, c, s, d, x0, y0) ==
  \A i \in DOMAIN m.el :
    /\ \A q \in DOMAIN m.el[i].pos[1] : TurnExact(c, s, d, x0, y0, m.el[i].pos[1][q], m.el[i].pos[2][q])
    /\ \A j \in 1..12 : m.el[i].cv[j][1] \in {"m", "s"} => TurnExact(c, s, d, x0, y0, m.el[i].cv[j][2], m.el[i].cv[j][3])

(* ---------------- saving and loading ---------------- *)
(* what a mesh becomes when written to a mesh file and read back (.re2: at least one field) *)
Reload(m, kind) ==
  LET cell(c, i, k) ==
        IF k > NFace(m) \/ T(c) = "" THEN E0
        ELSE IF kind = "re2" THEN IF T(c) = "E" THEN E0 ELSE [c EXCEPT ![2] = i, ![3] = k]
        ELSE IF T(c) = "E" /\ LnkE(c) = 0 THEN E0 ELSE c
      el(i) == [m.el[i] EXCEPT !.bc = [b \in DOMAIN @ |-> [k \in 1..6 |-> cell(@[b][k], i, k)]],
                               !.cv = [j \in 1..12 |-> IF @[j][1] = "" THEN C0 ELSE @[j]]]
  IN [m EXCEPT !.el = [i \in DOMAIN @ |-> el(i)], !.elmap = [i \in 1..m.nel |-> i], !.ncurv = NCurved(m),
               !.nv = <<m.ndim, 0, 0, 0, 0>>]

(* ---------------- faces that touch ---------------- *)
(* the faces of different elements with the same corners (as a set of points) *)
FacePoints(m, i, k) ==
  LET c == CornersOfFace(m.ndim, k) e == m.el[i] IN
  {<<e.pos[1][c[q]], e.pos[2][c[q]], e.pos[3][c[q]]>> : q \in 1..Len(c)}
=============================================================================
