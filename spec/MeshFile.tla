------------------------------- MODULE MeshFile -------------------------------
(* Linear meshes and their files: binary .re2, ASCII .rea, and partition maps .ma2.

   Real numbers are indexes into the table of the harness: Tab.h8l/h8b are their 8-byte words,
   Tab.int[n+1] is the index of the integer n, Tab.tok maps decimal text to indexes, Tab.e6/e11 are
   the texts written with 6/11 decimals.

   A mesh object is [ndim, nel, lr1, nv, nbc, ncurv, wdsz, endian, elmap, el];
   el[e] = [pos, cv, bc]: pos = three sequences of corner values in storage order (z, y, x with x
   fastest); cv = the edges that carry a curvature, in order, as [i, t, p] (type, five parameters);
   bc[field] = the faces that carry anything, in order, as [k, t, e, f, p].                     *)
EXTENDS Util, SequencesExt
CONSTANT Tab

ZeroV == Tab.zero
IntV(n) == Tab.int[n + 1]
NCorner(ndim) == IF ndim = 2 THEN 4 ELSE 8
ZeroPos(ndim) == [i \in 1..NCorner(ndim) |-> ZeroV]
NoBc(k) == [k |-> k, t |-> "", e |-> 0, f |-> 0, p |-> <<ZeroV, ZeroV, ZeroV, ZeroV, ZeroV>>]

(* entries of a sparse table by key, in increasing order of the key *)
RECURSIVE ByKey(_, _, _)
ByKey(S, key(_), n) ==
  IF n = 0 THEN <<>>
  ELSE LET r == {x \in S : key(x) = n} IN
       ByKey(S, key, n - 1) \o (IF r = {} THEN <<>> ELSE <<CHOOSE x \in r : TRUE>>)

WellFormedMesh(m) ==
  /\ m.ndim \in {2, 3} /\ m.nel = Len(m.el)
  /\ \A e \in DOMAIN m.el : /\ Len(m.el[e].bc) = m.nbc
                            /\ Len(m.el[e].pos) = 3

(* the corners in files go round each face of constant z: 1, 2, 4, 3 *)
Around == <<1, 2, 4, 3, 5, 6, 8, 7>>
IsLinear(m) == m.lr1 = <<2, 2, m.ndim - 1>> /\ m.nv[1] = m.ndim

(* =============================== text to hex =============================== *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c
RECURSIVE TextHex(_)
TextHex(s) == IF s = "" THEN "" ELSE HexByte(Code(SubSeq(s, 1, 1))) \o TextHex(SubSeq(s, 2, Len(s)))
RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
PadHex(s, w, fill) == TextHex(s) \o Rep(fill, w - Len(s))

(* =================================== .re2 =================================== *)
(* abstract file: [nel, ndim, endian, grp, geo, cv, bf]; grp[e] the 8 bytes in front of element e,
   geo[e][d] corner values in file order, cv = curve records [e, i, p, t, x], bf[field] = condition
   records [e, k, p, t]; x = the 8 bytes that hold the curvature type in the first one          *)
Re2Header(F) == PadR("#v002" \o Num(F.nel, 9) \o Num(F.ndim, 3) \o Num(F.nel, 9) \o " this is the hdr", 80)
DHex(v, endian) == IF endian = "little" THEN Tab.h8l[v] ELSE Tab.h8b[v]
Re2Geo(F) == 8 * (1 + F.ndim * NCorner(F.ndim)) * F.nel
Re2CvAt(F) == 84 + Re2Geo(F)
Re2BcAt(F, k) == Re2CvAt(F) + 8 + 64 * Len(F.cv) + Sum([j \in 1..(k - 1) |-> 8 + 64 * Len(F.bf[j])])
Re2Size(F) == Re2BcAt(F, Len(F.bf) + 1)

Words8(obs, at, n, word(_)) == WordsAt(obs, 2 * (at - 80), 16, n, word)
Rec(endian, a, b, p, txt, j) ==
  CASE j = 1 -> DHex(IntV(a), endian) [] j = 2 -> DHex(IntV(b), endian)
    [] j \in 3..7 -> DHex(p[j - 2], endian) [] OTHER -> txt
(* the part after the vertices, when the first skip bytes after the header are left out of obs *)
Re2Tail(F, obs, skip) ==
  << <<"re2.curve.count", Words8(obs, Re2CvAt(F) - skip, 1, LAMBDA k : DHex(IntV(Len(F.cv)), F.endian))>>,
     <<"re2.curves", Words8(obs, Re2CvAt(F) - skip + 8, 8 * Len(F.cv), LAMBDA k :
         LET c == F.cv[((k - 1) \div 8) + 1] IN Rec(F.endian, c.e, c.i, c.p, c.x, ((k - 1) % 8) + 1))>>,
     <<"re2.conditions", \A b \in 1..Len(F.bf) :
         /\ Words8(obs, Re2BcAt(F, b) - skip, 1, LAMBDA k : DHex(IntV(Len(F.bf[b])), F.endian))
         /\ Words8(obs, Re2BcAt(F, b) - skip + 8, 8 * Len(F.bf[b]), LAMBDA k :
              LET c == F.bf[b][((k - 1) \div 8) + 1] IN
              Rec(F.endian, c.e, c.k, c.p, PadHex(c.t, 8, "20"), ((k - 1) % 8) + 1))>> >>
GeoWord(F, e, j) ==
  LET nc == NCorner(F.ndim) IN
  IF j = 0 THEN F.grp[e] ELSE DHex(F.geo[e][((j - 1) \div nc) + 1][((j - 1) % nc) + 1], F.endian)
(* clauses saying that the text obs (hexadecimal, after the 80-byte header) is the image of F *)
Re2Image(F, obs) ==
  LET w == 1 + F.ndim * NCorner(F.ndim) IN
  << <<"re2.size", Len(obs) = 2 * (Re2Size(F) - 80)>>,
     <<"re2.tag", WordsAt(obs, 0, 8, 1, LAMBDA k : TagHex(F.endian))>>,
     <<"re2.geometry", Words8(obs, 84, w * F.nel, LAMBDA k : GeoWord(F, ((k - 1) \div w) + 1, (k - 1) % w))>> >>
  \o Re2Tail(F, obs, 0)
(* the same through a window: w = [size, tag, geo (the words of the elements E), tail] *)
Re2Window(F, w, E) ==
  LET n == 1 + F.ndim * NCorner(F.ndim) IN
  << <<"re2.size", w.size = Re2Size(F)>>, <<"re2.tag", w.tag = TagHex(F.endian)>>,
     <<"re2.geometry", \A i \in DOMAIN E : /\ Len(w.geo[i]) = 16 * n
         /\ WordsAt(w.geo[i], 0, 16, n, LAMBDA k : GeoWord(F, E[i], k - 1))>> >>
  \o Re2Tail(F, w.tail, Re2CvAt(F) - 80)

Re2Writable(m) == IsLinear(m)
Elems(m) == LET E == DOMAIN m.el IN IF E = 1..m.nel THEN [e \in 1..m.nel |-> e] ELSE SetToSortSeq(E, <)
WriteRe2(m) ==
  LET ES == Elems(m)
      faces(fld, e) == Pick(m.el[e].bc[fld], [j \in DOMAIN m.el[e].bc[fld] |->
                         m.el[e].bc[fld][j].t \notin {"", "E"} /\ m.el[e].bc[fld][j].k <= 2 * m.ndim])
      edges(e) == Pick(m.el[e].cv, [j \in DOMAIN m.el[e].cv |-> m.el[e].cv[j].t # ""])
  IN [nel |-> m.nel, ndim |-> m.ndim, endian |-> m.endian,
      grp |-> [e \in DOMAIN m.el |-> "0000000000000000"],
      geo |-> [e \in DOMAIN m.el |-> [d \in 1..m.ndim |-> [i \in 1..NCorner(m.ndim) |-> m.el[e].pos[d][Around[i]]]]],
      cv |-> Concat([x \in DOMAIN ES |-> LET e == ES[x] IN [j \in DOMAIN edges(e) |->
               [e |-> e, i |-> edges(e)[j].i, p |-> edges(e)[j].p, t |-> edges(e)[j].t,
                x |-> PadHex(edges(e)[j].t, 8, "00")]]]),
      bf |-> [fld \in 1..m.nbc |-> Concat([x \in DOMAIN ES |-> LET e == ES[x] IN [j \in DOMAIN faces(fld, e) |->
               [e |-> e, k |-> faces(fld, e)[j].k, p |-> faces(fld, e)[j].p, t |-> faces(fld, e)[j].t]]])]]

(* reading the first nsec condition sections; there is always one field *)
ReadRe2(F, nsec) ==
  LET nbc == Max2(1, nsec)
      curves(e) == {F.cv[j] : j \in {j \in DOMAIN F.cv : F.cv[j].e = e}}
      conds(b, e) == IF b > nsec THEN {} ELSE {F.bf[b][j] : j \in {j \in DOMAIN F.bf[b] : F.bf[b][j].e = e}}
      cvs(e) == ByKey(curves(e), LAMBDA x : x.i, 12)
      bcs(b, e) == ByKey(conds(b, e), LAMBDA x : x.k, 6)
  IN [ndim |-> F.ndim, nel |-> F.nel, lr1 |-> <<2, 2, F.ndim - 1>>, nv |-> <<F.ndim, 0, 0, 0, 0>>,
      nbc |-> nbc, ncurv |-> Len(F.cv), wdsz |-> 8, endian |-> F.endian, elmap |-> [e \in 1..F.nel |-> e],
      el |-> [e \in DOMAIN F.geo |->
        [pos |-> [d \in 1..3 |-> IF d > F.ndim THEN ZeroPos(F.ndim)
                                 ELSE [i \in 1..NCorner(F.ndim) |-> F.geo[e][d][Around[i]]]],
         cv |-> [j \in DOMAIN cvs(e) |-> [i |-> cvs(e)[j].i, t |-> cvs(e)[j].t, p |-> cvs(e)[j].p]],
         bc |-> [b \in 1..nbc |-> [j \in DOMAIN bcs(b, e) |->
                  [k |-> bcs(b, e)[j].k, t |-> bcs(b, e)[j].t, e |-> e, f |-> bcs(b, e)[j].k, p |-> bcs(b, e)[j].p]]]]]]

(* truncation: reading must fail unless the cut is at the end of the curves or of a section *)
Re2Cuts(F) == [k \in 1..(Len(F.bf) + 1) |-> Re2BcAt(F, k)]
Re2MayRead(F, avail) == \E k \in 1..(Len(F.bf) + 1) : avail = Re2BcAt(F, k)
Re2Sections(F, avail) == CHOOSE k \in 0..Len(F.bf) : avail = Re2BcAt(F, k + 1)

(* what saving as .re2 and loading again gives *)
CanonRe2(m) ==
  [m EXCEPT !.nbc = Max2(1, m.nbc), !.wdsz = 8, !.elmap = [e \in 1..m.nel |-> e], !.nv = <<m.ndim, 0, 0, 0, 0>>,
     !.ncurv = Cardinality({x \in (1..m.nel) \X (1..12) : \E j \in DOMAIN m.el[x[1]].cv :
                              m.el[x[1]].cv[j].i = x[2] /\ m.el[x[1]].cv[j].t # ""}),
     !.el = [e \in DOMAIN m.el |->
       [pos |-> [d \in 1..3 |-> IF d > m.ndim THEN ZeroPos(m.ndim) ELSE m.el[e].pos[d]],
        cv |-> Pick(m.el[e].cv, [j \in DOMAIN m.el[e].cv |-> m.el[e].cv[j].t # ""]),
        bc |-> [b \in 1..Max2(1, m.nbc) |-> IF b > m.nbc THEN <<>> ELSE
                 LET q == m.el[e].bc[b]
                     r == Pick(q, [j \in DOMAIN q |-> q[j].t \notin {"", "E"} /\ q[j].k <= 2 * m.ndim])
                 IN [j \in DOMAIN r |-> [r[j] EXCEPT !.e = e, !.f = r[j].k]]]]]]

(* =================================== .rea =================================== *)
(* ---- text ---- *)
RECURSIVE Lead(_, _)
Lead(s, i) == IF i > Len(s) THEN i ELSE IF SubSeq(s, i, i) = " " THEN Lead(s, i + 1) ELSE i
RECURSIVE Tail_(_, _)
Tail_(s, i) == IF i = 0 THEN 0 ELSE IF SubSeq(s, i, i) = " " THEN Tail_(s, i - 1) ELSE i
Strip(s) == LET a == Lead(s, 1) IN IF a > Len(s) THEN "" ELSE SubSeq(s, a, Tail_(s, Len(s)))
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) THEN i - 1 ELSE IF SubSeq(s, i, i) = " " THEN i - 1 ELSE WordEnd(s, i + 1)
RECURSIVE TokensFrom(_, _)
TokensFrom(s, i) == LET a == Lead(s, i) IN
  IF a > Len(s) THEN <<>> ELSE LET b == WordEnd(s, a) IN <<SubSeq(s, a, b)>> \o TokensFrom(s, b + 1)
Tokens(s) == TokensFrom(s, 1)
IsDigit(c) == \E i \in 0..9 : c = HexDigit(i)
Digit(c) == CHOOSE i \in 0..9 : c = HexDigit(i)
IsNat(s) == s # "" /\ \A i \in 1..Len(s) : IsDigit(SubSeq(s, i, i))
RECURSIVE Nat_(_)
Nat_(s) == IF s = "" THEN 0 ELSE 10 * Nat_(SubSeq(s, 1, Len(s) - 1)) + Digit(SubSeq(s, Len(s), Len(s)))
ToNat(s) == IF IsNat(s) /\ Len(s) < 10 THEN Nat_(s) ELSE -1
(* columns a..b (0-based, b excluded) without the surrounding blanks *)
Col(s, a, b) == IF a >= Len(s) THEN "" ELSE Strip(SubSeq(s, a + 1, Min2(b, Len(s))))
Real(s) == IF s \in DOMAIN Tab.tok THEN Tab.tok[s] ELSE 0      \* 0: not a known number

(* ---- the column layouts ---- *)
LayoutOf(nel) == IF nel < 1000 THEN 1 ELSE IF nel < 1000000 THEN 2 ELSE 3
CurveLine(s, lay) ==
  LET p0 == <<6, 8, 12>>[lay] i1 == <<3, 2, 2>>[lay] IN
  [i |-> ToNat(Col(s, 0, i1)), e |-> ToNat(Col(s, i1, p0)),
   p |-> [j \in 1..5 |-> Real(Col(s, p0 + 14 * (j - 1), p0 + 14 * j))],
   t |-> Col(s, p0 + 70, p0 + 73)]
CondLine(s, lay, e, k) ==
  LET p0 == <<10, 10, 16>>[lay] w == <<14, 14, 18>>[lay] IN
  [k |-> k, t |-> Col(s, 1, 4),
   e |-> CASE lay = 1 -> ToNat(Col(s, 4, 7)) [] lay = 2 -> e [] OTHER -> ToNat(Col(s, 4, 15)),
   f |-> CASE lay = 1 -> ToNat(Col(s, 7, 10)) [] lay = 2 -> k [] OTHER -> ToNat(Col(s, 15, 16)),
   p |-> [j \in 1..5 |-> Real(Col(s, p0 + w * (j - 1), p0 + w * j))]]
(* ids of faces without a neighbour carry no information *)
Absent(c) == c.t = "" \/ (c.t = "E" /\ c.p[1] = ZeroV)

Starred(s) == LET t == Tokens(s) IN Len(t) > 0 /\ SubSeq(t[1], 1, 1) = "*"
BcHeader(s) == LET t == Tokens(s) IN
  /\ \E i \in 3..Len(t) : t[i] = "BOUNDARY"
  /\ \A i \in 1..Len(t) : t[i] # "NO"
First(s) == LET t == Tokens(s) IN IF Len(t) = 0 THEN -1 ELSE ToNat(t[1])

(* ---- what follows the condition sections, from line i to the last of nl ---- *)
(* Presolve options, initial conditions, drive force, variable properties, history points, output
   fields: a number and that many lines each; then the numbers of the four kinds of objects.     *)
Counts(s) == First(s) >= 0
ReaClosing(L(_), nl, i, nsec) ==
  LET has(s, w) == \E k \in DOMAIN Tokens(s) : Tokens(s)[k] = w
      a0 == IF nsec < 2 THEN i + 1 ELSE i
      a1 == a0 + 1 + First(L(a0))            \* initial conditions
      a2 == a1 + 1 + First(L(a1))            \* title, drive force
      a3 == a2 + 2 + First(L(a2 + 1))        \* title, variable properties
      a4 == a3 + 2 + First(L(a3 + 1))        \* title, history points
      a5 == a4 + 2 + First(L(a4 + 1))        \* title, output fields
      a6 == a5 + 2 + First(L(a5 + 1))        \* title, objects
  IN /\ nsec < 2 => has(L(i), "NO") /\ has(L(i), "THERMAL")
     /\ Counts(L(a0)) /\ Counts(L(a1)) /\ \A x \in {a2, a3, a4, a5} : Starred(L(x)) /\ Counts(L(x + 1))
     /\ Starred(L(a6)) /\ \A k \in 1..4 : First(L(a6 + k)) = 0
     /\ nl = a6 + 4

(* ---- decoding the lines of a file, as the solver does ---- *)
(* L(i) = the i-th of the nl lines; stars = the lines among which the titles of the condition
   sections are; E = the elements of interest                                               *)
ParseReaOn(L(_), nl, stars, E, lay0) ==
  LET ndim == First(L(3))
      npar == First(L(4))
      i1 == 5 + npar                          \* passive scalar data
      i2 == i1 + 1 + First(L(i1))             \* switches
      i3 == i2 + 1 + First(L(i2))             \* XFAC ...
      i4 == i3 + 2                            \* NEL,NDIM,NELV
      nel == First(L(i4))
      lay == IF lay0 = 0 THEN LayoutOf(nel) ELSE lay0
      per == 1 + ndim * (ndim - 1)            \* lines per element
      corner(e, d, j) ==                      \* j-th corner in the order of the file
        LET t == Tokens(L(i4 + per * (e - 1) + 1 + ndim * ((j - 1) \div 4) + d)) IN
        IF Len(t) = 4 THEN Real(t[((j - 1) % 4) + 1]) ELSE 0
      i5 == i4 + per * nel + 2                \* number of curved sides (after a title)
      nc == First(L(i5))
      i6 == i5 + nc + 1                       \* ***** BOUNDARY CONDITIONS *****
      hs == {i \in stars : i >= i6 /\ BcHeader(L(i))}
      nsec == Cardinality(hs)
      h == [b \in 1..nsec |-> CHOOSE i \in hs : Cardinality({j \in hs : j <= i}) = b]   \* title lines
      blk == 1 + 2 * ndim * nel
      els == {e \in E : e <= nel}
  IN  IF ndim \notin {2, 3} \/ npar < 0 \/ First(L(i1)) < 0 \/ First(L(i2)) < 0 \/ nel < 1 \/ nc < 0
      THEN [ok |-> FALSE]
      ELSE [ok |-> /\ \A b \in 1..nsec : h[b] > i6 /\ (b < nsec => h[b + 1] >= h[b] + blk) /\ nl >= h[b] + blk - 1
                   /\ Starred(L(i6)) /\ \A i \in i6..(IF nsec = 0 THEN i6 ELSE h[1]) : Starred(L(i)),
            opening |-> nsec = 0 => \E k \in DOMAIN Tokens(L(i6 + 1)) : Tokens(L(i6 + 1))[k] = "NO",
            closing |-> ReaClosing(L, nl, IF nsec = 0 THEN i6 + 2 ELSE h[nsec] + blk, nsec),
            ndim |-> ndim, nel |-> nel,
            geo |-> [e \in els |-> [d \in 1..ndim |-> [j \in 1..NCorner(ndim) |-> corner(e, d, j)]]],
            cv |-> [c \in 1..nc |-> CurveLine(L(i5 + c), lay)],
            bf |-> [b \in 1..nsec |-> [e \in els |-> [k \in 1..(2 * ndim) |->
                     CondLine(L(h[b] + 2 * ndim * (e - 1) + k), lay, e, k)]]]]
ParseRea(ls, lay0) ==
  ParseReaOn(LAMBDA i : IF i \in DOMAIN ls THEN ls[i] ELSE "", Len(ls), DOMAIN ls, 1..Len(ls), lay0)

ReadRea(F) ==
  LET of(e) == ByKey({F.cv[j] : j \in {j \in DOMAIN F.cv : F.cv[j].e = e}}, LAMBDA x : x.i, 12)
      curved == {F.cv[j].e : j \in DOMAIN F.cv} IN
  [ndim |-> F.ndim, nel |-> F.nel, lr1 |-> <<2, 2, F.ndim - 1>>, nv |-> <<F.ndim, 0, 0, 0, 0>>,
   nbc |-> Len(F.bf), ncurv |-> Len(F.cv), wdsz |-> 8, endian |-> "little", elmap |-> [e \in 1..F.nel |-> e],
   el |-> [e \in DOMAIN F.geo |->
     [pos |-> [d \in 1..3 |-> IF d > F.ndim THEN ZeroPos(F.ndim)
                              ELSE [i \in 1..NCorner(F.ndim) |-> F.geo[e][d][Around[i]]]],
      cv |-> IF e \notin curved THEN <<>> ELSE
             [j \in DOMAIN of(e) |-> [i |-> of(e)[j].i, t |-> of(e)[j].t, p |-> of(e)[j].p]],
      bc |-> [b \in 1..Len(F.bf) |-> Pick(F.bf[b][e], [k \in 1..(2 * F.ndim) |-> ~Absent(F.bf[b][e][k])])]]]]

(* rounding of reals to the printed precision *)
Pr(v, lay) == IF lay = 3 THEN Tab.r11[v] ELSE Tab.r6[v]
(* content that the file written for m must state; a mesh of any order is written by its corners *)
PointOf(lr1, c) == 1 + ((c - 1) % 2) * (lr1[1] - 1) + (((c - 1) \div 2) % 2) * (lr1[2] - 1) * lr1[1]
                     + ((c - 1) \div 4) * (lr1[3] - 1) * lr1[1] * lr1[2]
ReaContent(m, lay) ==
  LET E == DOMAIN m.el
      ES == Elems(m)
      edges(e) == Pick(m.el[e].cv, [j \in DOMAIN m.el[e].cv |-> m.el[e].cv[j].t # ""])
      at(b, e, k) == LET q == m.el[e].bc[b] r == {j \in DOMAIN q : q[j].k = k /\ q[j].t # ""} IN
                     IF r = {} THEN NoBc(k) ELSE q[CHOOSE j \in r : TRUE]
  IN [ndim |-> m.ndim, nel |-> m.nel,
      geo |-> [e \in E |-> [d \in 1..m.ndim |-> [i \in 1..NCorner(m.ndim) |-> Tab.r6[m.el[e].pos[d][PointOf(m.lr1, Around[i])]]]]],
      cv |-> Concat([x \in 1..Len(ES) |-> LET e == ES[x] IN [j \in DOMAIN edges(e) |->
               [i |-> edges(e)[j].i, e |-> e, p |-> [q \in 1..5 |-> Tab.r6[edges(e)[j].p[q]]], t |-> edges(e)[j].t]]]),
      bf |-> [b \in 1..m.nbc |-> [e \in E |-> [k \in 1..(2 * m.ndim) |->
               LET c == at(b, e, k) IN [c EXCEPT !.p = [q \in 1..5 |-> Pr(c.p[q], lay)]]]]]]
SameCond(a, b, lay) == \/ Absent(a) /\ Absent(b)
                       \/ /\ a.t = b.t /\ a.p = b.p /\ a.k = b.k
                          /\ lay = 2 \/ (a.e = b.e /\ a.f = b.f)
ReaAgrees(m, P, lay) ==
  LET X == ReaContent(m, lay) IN
  IF ~P.ok THEN << <<"rea.structure", FALSE>> >>
  ELSE << <<"rea.no.conditions", P.opening>>, <<"rea.closing.counts", P.closing>>,
          <<"rea.dimensions", P.ndim = X.ndim /\ P.nel = X.nel>>,
          <<"rea.vertices", P.geo = X.geo>>, <<"rea.curves", P.cv = X.cv>>,
          <<"rea.fields", Len(P.bf) = Len(X.bf)>>,
          <<"rea.conditions", Len(P.bf) = Len(X.bf) => \A b \in 1..Len(X.bf) : \A e \in DOMAIN X.geo :
              \A k \in 1..(2 * X.ndim) : SameCond(P.bf[b][e][k], X.bf[b][e][k], lay)>> >>

ReaClauses(m, ls, lay0) ==
  LET lay == IF lay0 = 0 THEN LayoutOf(m.nel) ELSE lay0 IN ReaAgrees(m, ParseRea(ls, lay), lay)

(* ---- a window on a large mesh: the elements E and the lines that concern them ---- *)
(* The object is as above, with el a function on E and everything else of its nel elements without
   curvature or condition. w = [nl, no, tx, stars]: number of lines, numbers and texts of the lines
   in the window, numbers of the starred lines.                                                 *)
WindowMesh(o) == [o EXCEPT !.el = [e \in Range(o.E) |-> o.el[CHOOSE j \in DOMAIN o.E : o.E[j] = e]]]
ParseWindow(w, E) ==
  ParseReaOn(LAMBDA i : IF ToString(i) \in DOMAIN w.tx THEN w.tx[ToString(i)] ELSE "", w.nl, Range(w.stars), E, 0)

(* ---- a file for the abstract content, used to check the decoder in the model ---- *)
E6(v) == PadL(Tab.e6[v], 14)
E11(v) == PadL(Tab.e11[v], 18)
Cat5(p, fmt(_)) == fmt(p[1]) \o fmt(p[2]) \o fmt(p[3]) \o fmt(p[4]) \o fmt(p[5])
CurveText(c, lay) == Num(c.i, <<3, 2, 2>>[lay]) \o Num(c.e, <<3, 6, 10>>[lay]) \o Cat5(c.p, E6) \o PadL(c.t, 2)
CondText(c, lay) == " " \o PadR(c.t, 3)
   \o (CASE lay = 1 -> Num(c.e, 3) \o Num(c.f, 3) [] lay = 2 -> Num(c.e, 6) [] OTHER -> Num(c.e, 11) \o Num(c.f, 1))
   \o (IF lay = 3 THEN Cat5(c.p, E11) ELSE Cat5(c.p, E6))
ReaLines(F, lay) ==
  LET row(e, d, h) == E6(F.geo[e][d][4 * h + 1]) \o E6(F.geo[e][d][4 * h + 2]) \o E6(F.geo[e][d][4 * h + 3]) \o E6(F.geo[e][d][4 * h + 4])
      elem(e) == <<"ELEMENT " \o Num(e, 11) \o " [    1 ]    GROUP     0">>
                 \o Concat([h \in 1..(F.ndim - 1) |-> [d \in 1..F.ndim |-> row(e, d, h - 1)]])
      title(b) == CASE b = 1 -> "  ***** FLUID   BOUNDARY CONDITIONS *****"
                    [] b = 2 -> "  ***** THERMAL BOUNDARY CONDITIONS *****"
                    [] OTHER -> "  ***** PASSIVE SCALAR" \o Num(b - 2, 5) \o " BOUNDARY CONDITIONS *****"
  IN <<"****** PARAMETERS ******", "   2.6000     NEKTON VERSION", "   " \o ToString(F.ndim) \o " DIMENSIONAL RUN",
       "   2 PARAMETERS FOLLOW", "   1.00000     P001: DENSITY", "  -1000.00     P002: VISCOSITY",
       "      1  Lines of passive scalar data follows2 CONDUCT, 2RHOCP", "   1.00000",
       "  1  LOGICAL SWITCHES FOLLOW", " T      IFFLOW", "   2.0 2.0 -1.0 -1.0     XFAC,YFAC,XZERO,YZERO",
       "  ***** MESH DATA *****", "  " \o Num(F.nel, 10) \o " " \o ToString(F.ndim) \o " " \o Num(F.nel, 10) \o " NEL,NDIM,NELV">>
     \o Concat([e \in 1..F.nel |-> elem(e)])
     \o <<"  ***** CURVED SIDE DATA *****", "  " \o Num(Len(F.cv), 10) \o " Curved sides follow">>
     \o [j \in DOMAIN F.cv |-> CurveText(F.cv[j], lay)]
     \o <<"  ***** BOUNDARY CONDITIONS *****">>
     \o (IF Len(F.bf) = 0 THEN <<"  ***** NO FLUID BOUNDARY CONDITIONS *****">> ELSE <<>>)
     \o Concat([b \in 1..Len(F.bf) |-> <<title(b)>> \o Concat([e \in 1..F.nel |->
          [k \in 1..(2 * F.ndim) |-> CondText(F.bf[b][e][k], lay)]])])
     \o (IF Len(F.bf) < 2 THEN <<"  ***** NO THERMAL BOUNDARY CONDITIONS *****">> ELSE <<>>)
     \o <<"   0 PRESOLVE/RESTART OPTIONS  *****", "   2 INITIAL CONDITIONS *****", " C Default", " C Default",
          " ***** DRIVE FORCE DATA *****", "   1 Lines of Drive force data follow", " C",
          " ***** Variable Property Data *****", "   1 Lines follow.", "   0 PACKETS OF DATA FOLLOW",
          " ***** HISTORY AND INTEGRAL DATA *****", "   0 POINTS.", " ***** OUTPUT FIELD SPECIFICATION *****",
          "   1 SPECIFICATIONS FOLLOW", "   F COORDINATES", " ***** OBJECT SPECIFICATION *****",
          "   0 Surface Objects", "   0 Volume  Objects", "   0 Edge    Objects", "   0 Point   Objects">>

(* =================================== .ma2 =================================== *)
(* abstract file: [nel, nv, hdr, endian, rows]: rows[e] = processor, then nv vertex numbers;
   hdr = the seven numbers of the header                                                     *)
Ma2Header(F) == PadR("#v001" \o Num(F.hdr[1], 12) \o Num(F.hdr[2], 12) \o Num(F.hdr[3], 12) \o Num(F.hdr[4], 12)
                     \o Num(F.hdr[5], 12) \o Num(F.hdr[6], 12) \o Num(F.hdr[7], 12), 132)
Ma2Size(F) == 136 + 4 * (F.nv + 1) * F.nel
Ma2Valid(F) == /\ F.hdr[1] = F.nel /\ F.hdr[5] = F.nv * F.nel /\ F.nv \in {4, 8} /\ Len(F.rows) = F.nel
               /\ \A e \in 1..F.nel : Len(F.rows[e]) = F.nv + 1
Ma2Image(F, obs) == <<
  <<"ma2.size", Len(obs) = 2 * (Ma2Size(F) - 132)>>,
  <<"ma2.tag", WordsAt(obs, 0, 8, 1, LAMBDA k : TagHex(F.endian))>>,
  <<"ma2.rows", WordsAt(obs, 8, 8, (F.nv + 1) * F.nel, LAMBDA k :
     IntHex(F.rows[((k - 1) \div (F.nv + 1)) + 1][((k - 1) % (F.nv + 1)) + 1], F.endian))>> >>
ReadMa2(F) == [cell |-> [e \in 1..F.nel |-> [i \in 1..F.nv |-> F.rows[e][i + 1]]],
               proc |-> [e \in 1..F.nel |-> F.rows[e][1]]]
===============================================================================
