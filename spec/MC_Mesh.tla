------------------------------- MODULE MC_Mesh -------------------------------
(* Exhaustive exploration of short histories of mesh operations from every small box, and the laws
   that tie the operations to an independent, relational description of a mesh: the set of facts
   "the cell with these corners has, on this face, this condition, joined to that face of the cell
   with those corners", which does not depend on the numbering of elements. *)
EXTENDS Mesh, Json
CONSTANTS Regs, MaxOps, MaxEl, Sizes, Walls
VARIABLES heap, hist

NV(n) == CASE n = 0 -> <<2, 0, 0, 0, 0>> [] n = 1 -> <<2, 2, 1, 0, 0>> [] n = 2 -> <<2, 2, 1, 1, 0>>
Wall(t, n) == IF t = "-" THEN <<>> ELSE [b \in 1..n |-> IF b = 1 THEN t ELSE "t"]
MkBox(x) == Box(x.nx, x.ny, x.x0, x.x1, x.y0, x.y1, x.nv, DefaultBcs(x.nv, x.bcs), x.ib)
BoxEvent(s, tx, ty, n, ib, x0) ==
  [op |-> "box", nx |-> s[1], ny |-> s[2], x0 |-> x0, x1 |-> x0 + 4 * s[1], y0 |-> 0, y1 |-> 4 * s[2],
   nv |-> NV(n), bcs |-> <<Wall(tx, n), Wall(tx, n), Wall(ty, n), Wall(ty, n)>>, ib |-> ib]

MCSizes == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>}
MCWalls == {<<"-", "W">>, <<"W", "v">>, <<"O", "-">>, <<"", "W">>}
QSizes == {<<2, 1>>, <<1, 2>>}
QWalls == {<<"-", "W">>, <<"", "v">>}
GenWalls == MCWalls \cup {<<"-", "-">>, <<"v", "">>}

(* ---------------- relational description ---------------- *)
Cell(m, i) == m.el[i].pos
Facts(m) == {<<Cell(m, i), b, k, T(m.el[i].bc[b][k]),
               IF Linked(m.el[i].bc[b][k]) THEN <<Cell(m, LnkE(m.el[i].bc[b][k])), LnkF(m.el[i].bc[b][k])>> ELSE <<>> >>
             : i \in 1..m.nel, b \in 1..m.nbc, k \in 1..NFace(m)}
CellsOf(m) == {Cell(m, i) : i \in 1..m.nel}
Curves(m) == {<<Cell(m, i), j, m.el[i].cv[j]>> : i \in 1..m.nel, j \in 1..12}
Distinct(m) == Cardinality(CellsOf(m)) = m.nel
Touches(m) == {<<x, y>> \in ((1..m.nel) \X (1..NFace(m))) \X ((1..m.nel) \X (1..NFace(m))) :
                 x[1] # y[1] /\ FacePoints(m, x[1], x[2]) = FacePoints(m, y[1], y[2])}
TypeAt(m, b, x) == T(m.el[x[1]].bc[b][x[2]])
JoinedTo(m, b, x, y) == LET c == m.el[x[1]].bc[b][x[2]] IN T(c) = "E" /\ LnkE(c) = y[1] /\ LnkF(c) = y[2]
Good(m) == WellFormed(m) /\ BookCurv(m) /\ BookOwn(m) /\ LinksOk(m)

(* ---------------- operations ---------------- *)
Log(x) == hist' = Append(hist, x)
Set(r, m) == heap' = [heap EXCEPT ![r] = m]
(* joined faces are periodic at both sides or at none, in every field alike *)
PeriodicMatch(A, B) ==
  LET M == Merge(A, B, 1, 1000, FALSE, TRUE).m IN
  \A p \in Touches(M) : \A b \in 1..M.nbc : (TypeAt(M, b, p[1]) = "P") = (TypeAt(M, b, p[2]) = "P")
(* B is moved beside A first *)
Beside(A, B) ==
  LET lo(m, d) == SetMin(UNION {Range(m.el[i].pos[d]) : i \in 1..m.nel})
      hi(m, d) == SetMax(UNION {Range(m.el[i].pos[d]) : i \in 1..m.nel})
  IN <<hi(A, 1) - lo(B, 1), lo(A, 2) - lo(B, 2)>>
DoMerge(r, s, ie) ==
  LET A == heap[r] v == Beside(A, heap[s])
      B == MapMesh(heap[s], [k |-> "affine", a |-> 1, b |-> 0, c |-> 0, d |-> 1, e |-> v[1], f |-> v[2]], FALSE, FALSE) IN
  /\ r # s /\ A.ndim = 2 /\ heap[s].ndim = 2 /\ A.nbc = B.nbc /\ A.nel + B.nel <= MaxEl
  /\ PeriodicMatch(A, B)
  /\ Set(r, Merge(A, B, 1, 1000, ie, FALSE).m) /\ Log([op |-> "merge", r |-> r, b |-> s, ie |-> ie])
DoGen(r) == /\ ~HasZeroEdge(heap[r])
            /\ Set(r, GenerateInternal(heap[r], 1, 1000).m) /\ Log([op |-> "genint", r |-> r])
DoDel(r) == Set(r, DeleteInternal(heap[r])) /\ Log([op |-> "delint", r |-> r])
DoKeep(r, S, ext) ==
  LET x == Keep(heap[r], S, ext) IN
  /\ Set(r, x) /\ Log([op |-> "keep", r |-> r, els |-> SortSet({i - 1 : i \in S}), ext |-> ext])
DoExtrude(r, s, z, t, ib) ==
  LET m == heap[r] b == IF t = "-" THEN [q \in 1..m.nbc |-> "P"] ELSE [q \in 1..m.nbc |-> t] IN
  /\ m.ndim = 2 /\ m.nel * (Len(z) - 1) <= MaxEl
  /\ Set(s, Extrude(m, z, b, b, ib)) /\ Log([op |-> "extrude", a |-> r, r |-> s, z |-> z, t |-> t, ib |-> ib])
DoRotate(r) == Set(r, Rotate(heap[r], 0, 1, 1, 2, -2)) /\ Log([op |-> "rotate", r |-> r])
Shear == [k |-> "affine", a |-> 1, b |-> 1, c |-> 0, d |-> 1, e |-> 0, f |-> 4]
DoMap(r, s, cu, bo) ==
  LET m == heap[r] IN
  /\ m.ndim = 2
  /\ \A i \in 1..m.nel : \A j \in 1..4 : ToCurve(m.el[i], j, cu, bo) => Resolvable(m.el[i], j)
  /\ Set(s, MapMesh(m, Shear, cu, bo)) /\ Log([op |-> "map", a |-> r, r |-> s, cu |-> cu, bo |-> bo])
DoReload(r, s, kind) ==
  /\ heap[r].nbc > 0 /\ Set(s, Reload(heap[r], kind)) /\ Log([op |-> "reload", a |-> r, r |-> s, kind |-> kind])

Init == /\ \E s \in Sizes, t \in Sizes, w \in Walls, n \in 0..2, ib \in BOOLEAN :
             LET x == BoxEvent(s, w[1], w[2], n, ib, 0) y == BoxEvent(t, w[1], w[2], n, TRUE, 8) IN
             /\ heap = [r \in Regs |-> IF r = "a" THEN MkBox(x) ELSE MkBox(y)]
             /\ hist = << [n |-> n, a |-> x, b |-> y] >>
Next == /\ Len(hist) <= MaxOps
        /\ \E r \in Regs :
             \/ \E s \in Regs : \E ie \in BOOLEAN : DoMerge(r, s, ie)
             \/ DoGen(r) \/ DoDel(r)
             \/ \E q \in 1..heap[r].nel : \E ext \in {"", "W"} :
                  heap[r].nel > 1 /\ DoKeep(r, (1..heap[r].nel) \ {q}, ext)
             \/ \E s \in Regs : \E z \in {<<0, 2>>, <<-2, 0, 6>>} : \E t \in {"-", "v"} : \E ib \in BOOLEAN : DoExtrude(r, s, z, t, ib)
             \/ DoRotate(r)
             \/ \E s \in Regs : \E cu \in BOOLEAN : DoMap(r, s, cu, TRUE) \/ DoMap(r, s, cu, FALSE)
             \/ \E s \in Regs : \E kind \in {"re2", "rea"} : DoReload(r, s, kind)
Spec == Init /\ [][Next]_<<heap, hist>>
View == heap

(* ---------------- invariants ---------------- *)
InvBook == \A r \in Regs : WellFormed(heap[r]) /\ BookCurv(heap[r]) /\ BookOwn(heap[r])
InvLinks == \A r \in Regs : LinksOk(heap[r])
(* what is said to be joined does touch *)
InvTouch == \A r \in Regs : \A i \in 1..heap[r].nel : \A b \in 1..heap[r].nbc : \A k \in 1..NFace(heap[r]) :
  LET c == heap[r].el[i].bc[b][k] IN
  T(c) = "E" => FacePoints(heap[r], i, k) = FacePoints(heap[r], LnkE(c), LnkF(c))
InvCheck == \A r \in Regs : ConnectivityOk(heap[r], 1, 1000) /\ ConnectivityOk(heap[r], 0, 1)

Laws(m) ==
  LET D == DeleteInternal(m) G == GenerateInternal(m, 1, 1000) IN
  (* deleting: exactly the joined faces lose their condition *)
  /\ Facts(D) = {IF f[4] = "E" THEN <<f[1], f[2], f[3], "", <<>> >> ELSE f : f \in Facts(m)}
  /\ DeleteInternal(D) = D /\ NInternal(D) = 0
  /\ CellsOf(D) = CellsOf(m) /\ Curves(D) = Curves(m) /\ Good(D)
  (* generating: the free faces that touch are joined in every field, nothing else changes *)
  /\ Good(G.m) /\ CellsOf(G.m) = CellsOf(m) /\ Curves(G.m) = Curves(m)
  /\ \A p \in Touches(m) : (m.nbc > 0 /\ TypeAt(m, 1, p[1]) = "" /\ TypeAt(m, 1, p[2]) = "") =>
       \A b \in 1..m.nbc : JoinedTo(G.m, b, p[1], p[2])
  /\ m.nbc > 0 => \A i \in 1..m.nel : \A k \in 1..NFace(m) :
       (\A y \in (1..m.nel) \X (1..NFace(m)) :
          ~(<< <<i, k>>, y>> \in Touches(m) /\ TypeAt(m, 1, <<i, k>>) = "" /\ TypeAt(m, 1, y) = "")) =>
       \A b \in 1..m.nbc : G.m.el[i].bc[b][k] = m.el[i].bc[b][k]
  /\ GenerateInternal(G.m, 1, 1000) = [m |-> G.m, n |-> 0]
  /\ 2 * G.n = NInternal(G.m) - NInternal(m) + Cardinality({<<i, b, k>> \in (1..m.nel) \X (1..m.nbc) \X (1..6) :
        T(m.el[i].bc[b][k]) # T(G.m.el[i].bc[b][k]) /\ T(m.el[i].bc[b][k]) = "E"})
KeepLaw(m, S, ext) ==
  LET x == Keep(m, S, ext) cells == {Cell(m, i) : i \in S} IN
  /\ Good(x) /\ CellsOf(x) = cells
  /\ Curves(x) = {c \in Curves(m) : c[1] \in cells}
  /\ Facts(x) = {IF f[5] # <<>> /\ f[5][1] \notin cells THEN <<f[1], f[2], f[3], ext, <<>> >> ELSE f
                 : f \in {g \in Facts(m) : g[1] \in cells}}
  /\ \A q \in 1..x.nel : LET y == Keep(x, (1..x.nel) \ {q}, ext)
                             S2 == S \ {SortSet(S)[q]} IN x.nel > 1 => y = Keep(m, S2, ext)
InvLaws == \A r \in Regs : Distinct(heap[r]) =>
  /\ Laws(heap[r])
  /\ heap[r].nel <= 4 => \A S \in SUBSET (1..heap[r].nel) : S # {} => KeepLaw(heap[r], S, "con")
(* shifting there and back *)
InvShift == \A r \in Regs : \A min \in {0, 1} : LET m == heap[r] IN
  /\ Shift(Shift(m, 3, min), -3, min) = m
  /\ Shift(m, 0, min) = m
(* four quarter turns *)
InvTurn == \A r \in Regs : LET R(m) == Rotate(m, 0, 1, 1, 3, -5) m == heap[r] IN
  /\ R(R(R(R(m)))) = m /\ Good(R(m)) /\ Rotate(m, 1, 0, 1, 3, -5) = m
  /\ R(R(m)) = Rotate(m, -1, 0, 1, 3, -5)
(* extruding: layers are copies, joined exactly where they touch *)
InvExtrude == \A r \in Regs : LET m == heap[r] IN
  (m.ndim = 2 /\ Distinct(m) /\ m.nel <= 4) => \A t \in {"P", "W"} : \A z \in {<<0, 4>>, <<-4, 0, 2>>} :
    LET b == [q \in 1..m.nbc |-> t] X == Extrude(m, z, b, b, TRUE) Y == Extrude(m, z, b, b, FALSE) n == m.nel * (Len(z) - 1) IN
    /\ X.nel = n /\ Distinct(X) /\ Good(X) /\ Good(Y)
    /\ Facts(Y) = Facts(DeleteInternal(X)) /\ CellsOf(Y) = CellsOf(X) /\ Curves(Y) = Curves(X)
    /\ \A p \in Touches(X) : \A q \in 1..m.nbc :
         LET i == p[1][1] k == p[1][2] i2 == ((i - 1) % m.nel) + 1 IN
         IF k > 4 THEN JoinedTo(X, q, p[1], p[2]) ELSE TypeAt(X, q, p[1]) = TypeAt(m, q, <<i2, k>>)
    /\ Cardinality({f \in Facts(X) : f[4] = t /\ f[3] > 4}) = 2 * m.nel * m.nbc
    /\ NInternal(X) = (Len(z) - 1) * NInternal(m) + 2 * m.nel * m.nbc * (Len(z) - 2)
(* merging: the facts of both, except at the faces that touch, which are joined *)
MergeLaw(A, B, ie) ==
  LET R == Merge(A, B, 1, 1000, ie, FALSE) M == R.m U == Merge(A, B, 1, 1000, ie, TRUE).m
      cross == {p \in Touches(U) : (p[1][1] <= A.nel) # (p[2][1] <= A.nel)}
      joins == {p \in cross : \A x \in {p[1], p[2]} : Joinable(TypeAt(U, 1, x), ie)}
      ends == {p[1] : p \in joins} IN
  /\ Facts(U) = Facts(A) \cup Facts(B) /\ CellsOf(M) = CellsOf(U) /\ Curves(M) = Curves(A) \cup Curves(B)
  /\ M.nel = A.nel + B.nel /\ Good(M)
  /\ 2 * R.n = Cardinality(joins)
  /\ \A p \in joins : \A b \in 1..M.nbc : JoinedTo(M, b, p[1], p[2])
  /\ \A i \in 1..M.nel : \A k \in 1..NFace(M) : <<i, k>> \notin ends => \A b \in 1..M.nbc :
       LET c == U.el[i].bc[b][k] d == M.el[i].bc[b][k] IN
       \/ d = c
       \/ /\ T(c) = "P" /\ T(d) = "P" /\ <<LnkE(c), LnkF(c)>> \in ends     \* the partner was joined away
          /\ LET y == CHOOSE y \in {p[2] : p \in {q \in joins : q[1] = <<LnkE(c), LnkF(c)>>}} : TRUE
                 far == U.el[y[1]].bc[b][y[2]] IN LnkE(d) = LnkE(far) /\ LnkF(d) = LnkF(far)
InvMerge == \A r \in Regs, s \in Regs :
  LET A == heap[r] v == Beside(A, heap[s])
      B == MapMesh(heap[s], [k |-> "affine", a |-> 1, b |-> 0, c |-> 0, d |-> 1, e |-> v[1], f |-> v[2]], FALSE, FALSE) IN
  (A.ndim = 2 /\ heap[s].ndim = 2 /\ A.nbc = B.nbc /\ A.nbc > 0 /\ Distinct(A) /\ Distinct(B)
   /\ CellsOf(A) \cap CellsOf(B) = {} /\ A.nel + B.nel <= MaxEl /\ PeriodicMatch(A, B)) => \A ie \in BOOLEAN : MergeLaw(A, B, ie)
(* boxes: joining two halves gives the whole; generating joins what was built without *)
InvBox == hist = <<hist[1]>> =>
  LET x == hist[1].a whole == MkBox([x EXCEPT !.ib = TRUE]) bare == MkBox([x EXCEPT !.ib = FALSE]) IN
  /\ ConnectivityOk(whole, 0, 1)
  /\ (x.bcs[1] # <<"">> /\ whole.nbc > 0 /\ T(bare.el[1].bc[1][4]) # "") =>
        LET G == GenerateInternal(bare, 1, 1000).m IN Facts(G) = Facts(whole)
  /\ Facts(DeleteInternal(whole)) = Facts(bare)
  /\ \A h \in {1} : x.nx = 1 =>
       LET left == MkBox([x EXCEPT !.ib = TRUE]) right == MkBox([x EXCEPT !.ib = TRUE, !.x0 = x.x1, !.x1 = 2 * x.x1 - x.x0])
           big == MkBox([x EXCEPT !.ib = TRUE, !.nx = 2, !.x1 = 2 * x.x1 - x.x0]) IN
       (whole.nbc > 0 /\ T(left.el[1].bc[1][4]) # "") => Facts(Merge(left, right, 1, 1000, TRUE, FALSE).m) = Facts(big)
Emit == (Len(hist) > MaxOps) => PrintT("HIST|" \o ToJson(hist))
==============================================================================
