----------------------------- MODULE Trace_Refine -----------------------------
(* Judges calls of extrude_refine. Each event carries the plane mesh, the arguments, the outcome and the
   mesh that was returned, with two aids that are themselves verified or harmless: which faces have the
   same corners, and where the middle of every curved edge is.                                            *)
EXTENDS Refine, Json, IOUtils
VARIABLES tid, l

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Trace(i) == Data.traces[i].ev

Ends(nbc, b, c) == [f \in 1..nbc |-> IF b = <<"-">> THEN "P" ELSE b[f]]
Pts(m) == [i \in DOMAIN m.el |-> [c \in 1..8 |-> <<m.el[i].pos[1][c], m.el[i].pos[2][c], m.el[i].pos[3][c]>>]]
ZRange(p, k) == {x[3] : x \in FaceSet(p, k)}
XYSet(p, k) == {<<x[1], x[2]>> : x \in FaceSet(p, k)}

(* the condition of face k of element i in field b: cells C[i], twins tw *)
CondRight(e, m, P, C, tw, ends, zlo, zhi, i, k, b) ==
  LET c == m.el[i].bc[b][k] mutual == Answered(m, b, i, k) IN
  IF tw[i][k] # <<>>
  THEN IF e.ib THEN T(c) = "E" /\ <<LnkE(c), LnkF(c)>> = tw[i][k] ELSE T(c) = ""
  ELSE IF (k = 5 /\ ZRange(P[i], k) = {zlo}) \/ (k = 6 /\ ZRange(P[i], k) = {zhi})
  THEN LET t == IF k = 5 THEN ends[1][b] ELSE ends[2][b] IN
       /\ T(c) = t
       /\ IF t = "P" THEN mutual /\ LnkF(c) = 11 - k /\ XYSet(P[LnkE(c)], 11 - k) = XYSet(P[i], k)
                          /\ ZRange(P[LnkE(c)], 11 - k) = {IF k = 5 THEN zhi ELSE zlo}
                     ELSE LnkE(c) = 0 /\ LnkF(c) = 0
  ELSE LET ed == C[i].over[k] IN
       /\ ed # 0
       /\ LET d == e.m2.el[C[i].par].bc[b][ed] IN
          /\ T(c) = T(d)
          /\ IF T(d) = "P" THEN mutual /\ C[LnkE(c)].par = LnkE(d) /\ C[LnkE(c)].over[LnkF(c)] = LnkF(d)
                                /\ ZRange(P[LnkE(c)], LnkF(c)) = ZRange(P[i], k)
             ELSE \A q \in 4..8 : c[q] = d[q]

(* curvature of the element over an unsplit cell; of a split one none unless its cell has some *)
CurvRight(e, m, P, C, i) ==
  LET w == e.m2.el[C[i].par].cv a == m.el[i].cv IN
  IF C[i].sub = -1
  THEN \A j \in 1..12 : a[j] = (IF j > 8 THEN C0 ELSE LET x == w[((j - 1) % 4) + 1] IN
         IF x[1] = "m" THEN [x EXCEPT ![4] = P[i][IF j <= 4 THEN 1 ELSE 5][3]] ELSE x)
  ELSE (\A j \in 1..4 : w[j][1] = "") => \A j \in 1..12 : a[j] = C0
SameCurve(x, w, z) ==
  /\ x[1] = w[1]
  /\ w[1] = "C" => x[2] = w[2]
  /\ w[1] = "m" => <<x[2], x[3], x[4]>> = <<w[2], w[3], z>>
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
(* a level edge of an element of a split cell, over a whole edge of that cell, is curved like it *)
CurveKept(e, m, P, C, i) ==
  LET w == e.m2.el[C[i].par] IN
  \A j \in 1..8 : \A g \in 1..4 :
    LET a == P[i][Edges(3)[j][1]] b == P[i][Edges(3)[j][2]] IN
    (a[3] = b[3] /\ {<<a[1], a[2]>>, <<b[1], b[2]>>} = {At(w, Edges(2)[g][1]), At(w, Edges(2)[g][2])})
      => SameCurve(m.el[i].cv[j], w.cv[g], a[3])
(* over half of a curved edge it follows that half: the radius of a circle stays, and the middle of half a
   parabola is three quarters as far from the chord; so do the slanted edges, which cannot be arcs of circles
   and have their middles on the curve; bend: middles, in sixteenths rounded down *)
Whole(n) == CHOOSE r \in 0..n : r * r = n
(* point p, in sixteenths, is the middle of the arc of radius R (bent as over the chord d from A) from U to V; the
   top of the whole arc, H, is a lattice point, so the centre is H - R n *)
OnArc(p, R, A, d, H, U, V) ==
  LET L == Whole(d[1] * d[1] + d[2] * d[2]) r == IF R > 0 THEN R ELSE 0 - R s == IF R > 0 THEN 1 ELSE -1
      q == <<p[1] - 16 * H[1], p[2] - 16 * H[2]>>
      v == <<L * q[1] + 16 * r * s * d[2], L * q[2] - 16 * r * s * d[1]>>
      c == <<V[1] - U[1], V[2] - U[2]>> w == <<p[1] - 16 * U[1], p[2] - 16 * U[2]>>
  IN /\ Abs(v[1] * v[1] + v[2] * v[2] - 256 * L * L * r * r) <= 64 * L * L * r
     /\ Abs(2 * (w[1] * c[1] + w[2] * c[2]) - 16 * (c[1] * c[1] + c[2] * c[2])) <= 4 * (Abs(c[1]) + Abs(c[2]))
     /\ w[1] * w[1] + w[2] * w[2] <= 256 * (c[1] * c[1] + c[2] * c[2])
CurveHalved(e, m, P, C, bend, i) ==
  LET w == e.m2.el[C[i].par] IN
  \A j \in 1..12 : \A g \in 1..4 :
    LET a == P[i][Edges(3)[j][1]] b == P[i][Edges(3)[j][2]]
        A == At(w, Edges(2)[g][1]) B == At(w, Edges(2)[g][2]) M == e.mids[C[i].par][g]
        x == m.el[i].cv[j] xy == {<<a[1], a[2]>>, <<b[1], b[2]>>}
        d == <<B[1] - A[1], B[2] - A[2]>>
    IN (xy \in {{A, M}, {M, B}})
      => IF w.cv[g][1] = "" THEN x[1] = ""
         ELSE /\ x[1] \in {"C", "m"} /\ (w.cv[g][1] = "m" => x[1] = "m") /\ (a[3] # b[3] => x[1] = "m")
              /\ x[1] = "C" => x[2] = w.cv[g][2]
              /\ (x[1] = "m" /\ w.cv[g][1] = "C") => OnArc(bend[i][j], w.cv[g][2], A, d, M, IF xy = {A, M} THEN A ELSE M,
                                                            IF xy = {A, M} THEN M ELSE B)
              /\ w.cv[g][1] = "m" =>
                   LET got == <<bend[i][j][1] - 16 * A[1], bend[i][j][2] - 16 * A[2]>> IN
                   Abs(4 * Cross2(got, d) - 48 * Cross2(<<M[1] - A[1], M[2] - A[2]>>, d)) <= 8 * (Abs(d[1]) + Abs(d[2]))
(* the line along which a cell is cut bends half way between the sides it runs between *)
CutLine(e, P, C, bend, i) ==
  LET w == e.m2.el[C[i].par] M == e.mids[C[i].par]
      Out(g) == LET A == At(w, Edges(2)[g][1]) B == At(w, Edges(2)[g][2]) IN
                <<2 * M[g][1] - A[1] - B[1], 2 * M[g][2] - A[2] - B[2]>>
  IN \A j \in 1..12 : \A g \in 1..2 :
    LET a == P[i][Edges(3)[j][1]] b == P[i][Edges(3)[j][2]]
        d == <<M[g + 2][1] - M[g][1], M[g + 2][2] - M[g][2]>>
        o == <<Out(3 - g)[1] + Out(5 - g)[1], Out(3 - g)[2] + Out(5 - g)[2]>>
        got == <<bend[i][j][1] - 16 * M[g][1], bend[i][j][2] - 16 * M[g][2]>>
        want == 4 * Cross2(o, d)
    IN {<<a[1], a[2]>>, <<b[1], b[2]>>} = {M[g], M[g + 2]}
         => Abs(Cross2(got, d) - want) <= 3 * (Abs(d[1]) + Abs(d[2])) + Abs(want) \div 8
(* the middle of every edge is half way up *)
HalfWayUp(P, bend, i) ==
  \A j \in 1..12 : bend[i][j][3] = 8 * (P[i][Edges(3)[j][1]][3] + P[i][Edges(3)[j][2]][3])
(* elements that share an edge see the same curve *)
EdgesAgree(m, P, bend) ==
  LET seen == {<<{P[i][Edges(3)[j][1]], P[i][Edges(3)[j][2]]}, bend[i][j]>> : <<i, j>> \in (DOMAIN m.el) \X (1..12)}
  IN Cardinality(seen) = Cardinality({x[1] : x \in seen})

(* every condition says which face it belongs to *)
OwnSet(m) == \A i \in DOMAIN m.el : \A b \in DOMAIN m.el[i].bc : \A k \in 1..NFace(m) :
               LET c == m.el[i].bc[b][k] IN T(c) # "" => (OwnE(c) = i /\ OwnF(c) = k)

Judge(e, m, P, X, C, ends) ==
  LET n == Len(P) zlo == e.z[1] zhi == e.z[Len(e.z)] IN
  << <<"right-handed", e.straight => \A i \in 1..n : Upright(P[i]) /\ Volume12(P[i]) > 0>>,
     <<"volume", e.straight => SumTo([i \in 1..n |-> Volume12(P[i])], n)
                               = 6 * (zhi - zlo) * SumTo([i \in DOMAIN e.m2.el |-> Area2D(e.m2.el[i])], e.m2.nel)>>,
     <<"HARNESS", TwinsRight(P, e.twin)>>,
     <<"conditions", \A i \in 1..n : \A k \in 1..6 : \A b \in 1..m.nbc :
          CondRight(e, m, P, C, e.twin, ends, zlo, zhi, i, k, b)>>,
     <<"curvature", \A i \in 1..n : CurvRight(e, m, P, C, i)>>,
     <<"curvature.kept", \A i \in 1..n : C[i].sub # -1 => CurveKept(e, m, P, C, i)>>,
     <<"curvature.halved", \A i \in 1..n : C[i].sub # -1 => CurveHalved(e, m, P, C, e.bend, i)>>,
     <<"curvature.cut", \A i \in 1..n : C[i].sub # -1 => CutLine(e, P, C, e.bend, i)>>,
     <<"middles.half.way.up", \A i \in 1..n : HalfWayUp(P, e.bend, i)>>,
     <<"edges.agree", EdgesAgree(m, P, e.bend)>>,
     <<"own.kept", OwnSet(e.m2) => OwnSet(m)>> >>

Accepted(e) ==
  LET m == e.post ends == <<Ends(e.m2.nbc, e.b1, 0), Ends(e.m2.nbc, e.b2, 0)>> IN
  << <<"meta", m.ndim = 3 /\ m.lr1 = <<2, 2, 2>> /\ m.nbc = e.m2.nbc /\ m.nv = <<3, 0, 0, 0, 0>> >>,
     <<"book", BookCounts(m) /\ BookMap(m) /\ BookCurv(m) /\ BookFields(m)>>,
     <<"corners", \A i \in DOMAIN m.el : \A d \in 1..3 : Len(m.el[i].pos[d]) = 8>> >>
  \o IF ~(BookCounts(m) /\ BookFields(m) /\ \A i \in DOMAIN m.el : \A d \in 1..3 : Len(m.el[i].pos[d]) = 8) THEN <<>>
  ELSE IF e.funs = <<>>
  THEN LET x == Extrude(e.m2, e.z, ends[1], ends[2], e.ib) IN
       << <<"plain.extrusion", m.ndim = x.ndim /\ m.nel = x.nel /\ m.ncurv = x.ncurv /\ m.elmap = x.elmap /\ m.el = x.el>> >>
  ELSE << <<"book.own", BookOwn(m)>>, <<"book.links", LinksOk(m)>> >> \o
       LET P == TLCEval(Pts(m))
           X == TLCEval(Cells(e.m2, e.z, e.funs, e.high, e.mids))
           fill == Len(P) = Cardinality(X) /\ {P[i] : i \in DOMAIN P} = {x.pos : x \in X}
       IN << <<"cells", fill>> >> \o
          IF ~fill THEN <<>>
          ELSE LET C == TLCEval([i \in 1..Len(P) |-> CHOOSE x \in X : x.pos = P[i]]) IN
               IF BookOwn(m) /\ LinksOk(m) THEN Judge(e, m, P, X, C, ends) ELSE <<>>

StepRefine(e) ==
  LET ends == <<Ends(e.m2.nbc, e.b1, 0), Ends(e.m2.nbc, e.b2, 0)>>
      can == IF e.funs = <<>> THEN Extrudable(e.m2, ends[1], ends[2])
             ELSE /\ Refinable(e.m2, Len(e.z) - 1, ends[1], ends[2], e.funs, e.npar, e.high)
                  /\ e.direct => \A i \in DOMAIN e.m2.el : Part(e.funs, e.m2.el[i])[1] = 1    \* extrude_mid
  IN << <<"HARNESS", WellFormed(e.m2)>>,
        <<IF can THEN "must.succeed" ELSE "must.be.refused", e.st = (IF can THEN "ok" ELSE "err")>>,
        <<"arguments.unchanged", e.same>>, <<"nothing.shared", e.shared = <<>> >> >>
     \o IF can /\ e.st = "ok" THEN Accepted(e) ELSE <<>>

Init == tid \in 1..Len(Data.traces) /\ l = 1
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E bad \in {Failing(StepRefine(e))} :
       /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l>>
View == <<tid, l>>
===============================================================================
