------------------------------ MODULE MC_Refine ------------------------------
(* The pattern of cells fills the volume and matches face to face, for every choice of lines between the
   columns of a small block of cells, of the part with the finest layers, of the side that is inside and
   of the numbering of the corners.                                                                    *)
EXTENDS Refine
CONSTANTS Cols, Rows, NzMax     \* Rows at most 3
VARIABLES lines, high, sgn, rot, nz

W == 8
RingOf == <<1, 2, 4, 3>>            \* corners in order around the cell
Pt(i, j) == <<W * i + (IF i = 1 THEN 2 * j ELSE 0), W * j>>
(* cell in column i and row j (from 0), its corners turned by r *)
Cell(i, j, r) ==
  LET ring == <<Pt(i, j), Pt(i + 1, j), Pt(i + 1, j + 1), Pt(i, j + 1)>>
      at(q) == ring[1 + (((CHOOSE n \in 0..3 : RingOf[n + 1] = q) + r) % 4)]
  IN [pos |-> <<[q \in 1..4 |-> at(q)[1]], [q \in 1..4 |-> at(q)[2]], <<0, 0, 0, 0>>>>]
Block == [el |-> [n \in 1..Cols * Rows |-> Cell((n - 1) % Cols, (n - 1) \div Cols, (rot + n) % 4)], nel |-> Cols * Rows]
(* the line between vertices i and i + 1 of every row *)
LineAt(i) == [k |-> "line", a |-> 1, b |-> 0, c |-> W * i + (IF i = 1 THEN 6 ELSE 4), s |-> sgn]
Funs == LET S == SortSet(lines) o == IF sgn = 1 THEN S ELSE Rev(S) IN [n \in 1..Len(o) |-> LineAt(o[n])]
Mids == [n \in 1..Cols * Rows |-> [j \in 1..4 |->
          LET e == Block.el[n] c == Edges(2)[j] IN <<(e.pos[1][c[1]] + e.pos[1][c[2]]) \div 2, (e.pos[2][c[1]] + e.pos[2][c[2]]) \div 2>>]]
Z == [n \in 1..nz + 1 |-> 3 * n]

Init == /\ lines \in {S \in SUBSET (0..Cols - 1) : Cardinality(S) \in 1..2}
        /\ high \in 0..Cardinality(lines) /\ sgn \in {1, -1} /\ rot \in 0..3 /\ nz \in 1..NzMax
Next == UNCHANGED <<lines, high, sgn, rot, nz>>
Spec == Init /\ [][Next]_<<lines, high, sgn, rot, nz>>

Fits == LayersFit(nz, Cardinality(lines), high)
AllSplit == \A i \in DOMAIN Block.el : Splittable(Funs, Block.el[i])
(* the least number of layers that fits, and its multiples *)
LayersLaw == Fits <=> (nz % SetMax({4 * MidStep(k, high) : k \in 0..Cardinality(lines) - 1})) = 0

Fills ==
  (Fits /\ AllSplit) =>
    LET X == TLCEval(Cells(Block, Z, Funs, high, Mids))
        FC == {<<x, k>> : x \in X, k \in 1..6}
        sets == {FaceSet(y[1].pos, y[2]) : y \in FC}
        Sum12 == LET S == TLCEval({<<Volume12(x.pos), x.par, x.sub, x.t>> : x \in X})
                     RECURSIVE Add(_)
                     Add(A) == IF A = {} THEN 0 ELSE LET a == CHOOSE a \in A : TRUE IN a[1] + Add(A \ {a})
                 IN Add(S)
        Outer(s) == (\A p \in s : p[3] = Z[1]) \/ (\A p \in s : p[3] = Z[nz + 1])
                    \/ (\A p \in s : p[2] = 0) \/ (\A p \in s : p[2] = W * Rows)
                    \/ (\A p \in s : p[1] = 0) \/ (\A p \in s : p[1] = W * Cols)
        count == [s \in sets |-> Cardinality({y \in FC : FaceSet(y[1].pos, y[2]) = s})]
    IN /\ \A x \in X : Upright(x.pos) /\ Volume12(x.pos) > 0
       /\ Sum12 = 6 * (Z[nz + 1] - Z[1]) * SumTo([i \in DOMAIN Block.el |-> Area2D(Block.el[i])], Block.nel)
       (* faces are shared by two cells, except the outer ones *)
       /\ \A s \in sets : Cardinality(s) = 4 /\ count[s] = (IF Outer(s) THEN 1 ELSE 2)
       (* faces over an edge of the plane mesh are the ones said to be *)
       /\ \A y \in FC : (Outer(FaceSet(y[1].pos, y[2])) /\ y[2] < 5) => y[1].over[y[2]] # 0
       (* the part called high has all layers, each line halves them *)
       /\ \A i \in DOMAIN Block.el : LET p == Part(Funs, Block.el[i]) n == Cardinality({x \in X : x.par = i}) IN
            IF p[1] = 0 THEN n * PlainStep(p[2], high) = nz ELSE n * 4 * MidStep(p[2], high) = 6 * nz
===============================================================================
