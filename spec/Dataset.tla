------------------------------- MODULE Dataset -------------------------------
(* Field files of box meshes as labelled arrays: which names designate field files, how the
   elements of a mesh make up three axes, and which stored value belongs at each place.

   m is a data object as ReadFile of Field gives it.                                         *)
EXTENDS Field

(* ------------------------------ names ------------------------------ *)
DecimalDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
FieldName(s) ==
  LET n == Len(s) IN
  \/ n >= 4 /\ SubSeq(s, n - 3, n) = ".fld"
  \/ n >= 7 /\ SubSeq(s, n - 6, n - 5) = ".f" /\ \A i \in (n - 4)..n : SubSeq(s, i, i) \in DecimalDigits

(* ------------------------------ axes ------------------------------ *)
Pt(lr1, i, j, k) == i + (j - 1) * lr1[1] + (k - 1) * lr1[1] * lr1[2]
(* an element's own points in direction d *)
Axis(m, e, d) ==
  LET p == m.el[e][1][d] IN
  [i \in 1..m.lr1[d] |-> p[IF d = 1 THEN Pt(m.lr1, i, 1, 1) ELSE IF d = 2 THEN Pt(m.lr1, 1, i, 1)
                           ELSE Pt(m.lr1, 1, 1, i)]]
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

(* every element is a box whose points increase in x, y and z *)
Aligned(m) ==
  \A e \in DOMAIN m.el : \A d \in 1..3 :
    LET a == TLCEval(Axis(m, e, d)) IN
    /\ Increasing(a)
    /\ \A i \in 1..m.lr1[1], j \in 1..m.lr1[2], k \in 1..m.lr1[3] :
         m.el[e][1][d][Pt(m.lr1, i, j, k)] = a[<<i, j, k>>[d]]

Layers(m, d) == {Axis(m, e, d) : e \in DOMAIN m.el}
Place(m, e) == <<Axis(m, e, 1), Axis(m, e, 2), Axis(m, e, 3)>>
(* the elements fill a tensor grid of layers that at most touch *)
Box(m) ==
  /\ Aligned(m)
  /\ \A d \in 1..3 : \A a, b \in Layers(m, d) :
       a = b \/ a[Len(a)] <= b[1] \/ b[Len(b)] <= a[1]
  /\ Cardinality({Place(m, e) : e \in DOMAIN m.el}) = Len(m.el)
  /\ Len(m.el) = Cardinality(Layers(m, 1)) * Cardinality(Layers(m, 2)) * Cardinality(Layers(m, 3))

Rank(S, a) == Cardinality({b \in S : b[1] < a[1]}) + 1
Ordered(S) == [i \in 1..Cardinality(S) |-> CHOOSE a \in S : Rank(S, a) = i]
Coordinate(m, d) == Concat(Ordered(Layers(m, d)))

(* ------------------------------ values ------------------------------ *)
(* variables: name, group and component *)
Names(nv) ==
  <<<<"xmesh", 1, 1>>, <<"ymesh", 1, 2>>, <<"zmesh", 1, 3>>, <<"ux", 2, 1>>, <<"uy", 2, 2>>, <<"uz", 2, 3>>>>
  \o (IF nv[3] > 0 THEN << <<"pressure", 3, 1>> >> ELSE <<>>)
  \o (IF nv[4] > 0 THEN << <<"temperature", 4, 1>> >> ELSE <<>>)
  \o [s \in 1..nv[5] |-> <<"s" \o Zero2(s), 5, s>>]
(* names of variables that the file holds; the others of Names are zero if present *)
Held(nv) == {Names(nv)[i][1] : i \in {j \in DOMAIN Names(nv) : LET v == Names(nv)[j] IN v[3] <= nv[v[2]]}}

(* the labelled array of a box mesh: three coordinates and, for each variable, its values with x
   varying fastest *)
Labelled(m) ==
  LET L == TLCEval([d \in 1..3 |-> Layers(m, d)])
      n == [d \in 1..3 |-> Cardinality(L[d]) * m.lr1[d]]
      rank == TLCEval([e \in DOMAIN m.el |-> [d \in 1..3 |-> Rank(L[d], Axis(m, e, d))]])
      at == TLCEval([c \in (1..Cardinality(L[1])) \X (1..Cardinality(L[2])) \X (1..Cardinality(L[3])) |->
                       CHOOSE e \in DOMAIN m.el : rank[e] = c])
      src == TLCEval([q \in 1..(n[1] * n[2] * n[3]) |->
               LET i == (q - 1) % n[1] j == ((q - 1) \div n[1]) % n[2] k == (q - 1) \div (n[1] * n[2]) IN
               <<at[<<(i \div m.lr1[1]) + 1, (j \div m.lr1[2]) + 1, (k \div m.lr1[3]) + 1>>],
                 Pt(m.lr1, (i % m.lr1[1]) + 1, (j % m.lr1[2]) + 1, (k % m.lr1[3]) + 1)>>])
      nm == Names(m.nv)
  IN  [coord |-> [d \in 1..3 |-> Coordinate(m, d)],
       time |-> m.time,
       size |-> n,
       var |-> [v \in DOMAIN nm |-> <<nm[v][1], [q \in DOMAIN src |-> m.el[src[q][1]][nm[v][2]][nm[v][3]][src[q][2]]]>>]]
===============================================================================
