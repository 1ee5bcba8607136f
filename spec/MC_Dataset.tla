----------------------------- MODULE MC_Dataset -----------------------------
(* The way a dataset is made: every element becomes a small labelled array of its own (its points
   in each direction are the different values found there), the small arrays are ranked along each
   direction by their first points and joined. Elements are added in every order, with their points
   stored in every orientation. What comes out is what Dataset.tla defines, or a refusal.

   Several files of one mesh are then stacked: each file's array under its own time.

   Guard: the points of an element are compared with the grid of the different values found.      *)
EXTENDS Dataset
CONSTANTS Grids,      \* numbers of layers in x, y and z
          MaxFiles, Guard,
          Turns       \* orientations in which the points of an element are stored
VARIABLES grid, els, twisted, stack

NoTab == [R32 |-> <<>>, zero |-> 0]
Grid221 == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>, <<2, 2, 1>>, <<3, 1, 1>>}
Grid222 == {<<2, 2, 2>>, <<3, 2, 1>>, <<1, 2, 3>>}

lr1 == <<2, 2, 2>>
(* neighbouring layers touch *)
Lay(d, c) == <<10 * d + c, 10 * d + c + 1>>
Cells(g) == (1..g[1]) \X (1..g[2]) \X (1..g[3])

Corner(p) == <<((p - 1) % 2) + 1, (((p - 1) \div 2) % 2) + 1, ((p - 1) \div 4) + 1>>
Flip(i) == 3 - i
(* the point that is stored at p *)
Turned(t, p) ==
  LET c == Corner(p) IN
  CASE t = "none" -> c
    [] t = "x" -> <<Flip(c[1]), c[2], c[3]>>
    [] t = "y" -> <<c[1], Flip(c[2]), c[3]>>
    [] t = "z" -> <<c[1], c[2], Flip(c[3])>>
    [] t = "swap" -> <<c[2], c[1], c[3]>>
Elem(cell, t) ==
  << [d \in 1..3 |-> [p \in 1..8 |-> Lay(d, cell[d])[Turned(t, p)[d]]]],
     [d \in 1..3 |-> [p \in 1..8 |-> 0]],
     << [p \in 1..8 |-> <<cell, Turned(t, p)>>] >>, <<>>, <<>> >>
Mem(es) == [ndim |-> 3, lr1 |-> lr1, nv |-> <<3, 0, 1, 0, 0>>, time |-> "0", elmap |-> <<>>,
            el |-> [i \in DOMAIN es |-> Elem(es[i].cell, es[i].t)]]

(* ------------------------------ the implementation's way ------------------------------ *)
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o Sort(S \ {x})
OwnAxis(m, e, d) == Sort(Range(m.el[e][1][d]))
Storable(m, e) ==
  /\ \A d \in 1..3 : Len(OwnAxis(m, e, d)) = lr1[d]
  /\ Guard => \A d \in 1..3, p \in 1..8 : m.el[e][1][d][p] = OwnAxis(m, e, d)[Corner(p)[d]]
JoinDims(m) == {d \in 1..3 : \E a, b \in DOMAIN m.el : OwnAxis(m, a, d) # OwnAxis(m, b, d)}
Refusal == [refused |-> TRUE]
Combine(m) ==
  LET D == JoinDims(m)
      N == DOMAIN m.el
      ax == [e \in N |-> [d \in 1..3 |-> OwnAxis(m, e, d)]]
      firsts(d) == {ax[e][d][1] : e \in N}
      rank(e, d) == IF d \in D THEN Cardinality({v \in firsts(d) : v < ax[e][d][1]}) + 1 ELSE 1
      tile == [e \in N |-> <<rank(e, 1), rank(e, 2), rank(e, 3)>>]
      k == [d \in 1..3 |-> IF d \in D THEN Cardinality(firsts(d)) ELSE 1]
      at(t) == CHOOSE e \in N : tile[e] = t /\ \A f \in N : tile[f] = t => f <= e        \* the last one stays
      line(d) == Concat([i \in 1..k[d] |-> ax[CHOOSE e \in N : tile[e][d] = i][d]])
  IN
  IF (\E e \in N : ~Storable(m, e)) \/ (Len(m.el) > 1 /\ D = {}) \/ Cardinality(Range(tile)) # k[1] * k[2] * k[3]
  THEN Refusal
  ELSE LET n == [d \in 1..3 |-> 2 * k[d]] IN
       [refused |-> FALSE,
        coord |-> [d \in 1..3 |-> line(d)],
        pres |-> [q \in 1..(n[1] * n[2] * n[3]) |->
           LET i == (q - 1) % n[1] j == ((q - 1) \div n[1]) % n[2] h == (q - 1) \div (n[1] * n[2]) IN
           m.el[at(<<(i \div 2) + 1, (j \div 2) + 1, (h \div 2) + 1>>)][3][1][Pt(lr1, (i % 2) + 1, (j % 2) + 1, (h % 2) + 1)]]]

(* ------------------------------ behaviour ------------------------------ *)
Used == {els[i].cell : i \in DOMAIN els}
Full == Used = Cells(grid)
Init == grid \in Grids /\ els = <<>> /\ twisted = FALSE /\ stack = <<>>
Add ==
  /\ stack = <<>>
  /\ \E c \in Cells(grid) \ Used : \E t \in Turns :
       /\ t # "none" => ~twisted
       /\ els' = Append(els, [cell |-> c, t |-> t])
       /\ twisted' = (twisted \/ t # "none")
  /\ UNCHANGED <<grid, stack>>
(* the file is opened and put at the end of the stack; the next one has its elements in another order *)
OpenFile ==
  /\ Full /\ ~twisted /\ Len(stack) < MaxFiles
  /\ stack' = Append(stack, [time |-> Len(stack) + 1, ds |-> Combine(Mem(els))])
  /\ els' = Rev(els)
  /\ UNCHANGED <<grid, twisted>>
Next == Add \/ OpenFile
Spec == Init /\ [][Next]_<<grid, els, twisted, stack>>

(* ------------------------------ properties ------------------------------ *)
Placed ==
  (Full /\ stack = <<>>) =>
    LET m == Mem(els) r == Combine(m) IN
    IF twisted THEN ~Aligned(m) /\ r.refused
    ELSE /\ Box(m) /\ ~r.refused
         /\ LET x == Labelled(m) IN r.coord = x.coord /\ r.pres = x.var[7][2]
(* every point of every element is there, at its own coordinates *)
AtItsCoordinates ==
  (Full /\ stack = <<>> /\ ~twisted) =>
    LET m == Mem(els) x == Labelled(m) n == x.size IN
    /\ Len(x.var[7][2]) = 8 * Len(m.el)
    /\ Cardinality(Range(x.var[7][2])) = 8 * Len(m.el)
    /\ \A q \in DOMAIN x.var[7][2] : \A d \in 1..3 :
         x.coord[d][<<((q - 1) % n[1]) + 1, (((q - 1) \div n[1]) % n[2]) + 1, ((q - 1) \div (n[1] * n[2])) + 1>>[d]]
           = LET v == x.var[7][2][q] IN Lay(d, v[1][d])[v[2][d]]
    /\ \A d \in 1..3 : \A i \in 1..(Len(x.coord[d]) - 1) : x.coord[d][i] <= x.coord[d][i + 1]
(* the order of the elements in the file does not matter *)
SameWhateverOrder ==
  \A i, j \in DOMAIN stack : stack[i].ds = stack[j].ds
StackedInOrder == \A i \in DOMAIN stack : stack[i].time = i
===============================================================================
