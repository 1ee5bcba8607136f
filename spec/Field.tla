-------------------------------- MODULE Field --------------------------------
(* Nek5000 field files: data objects, the abstract file, its byte image, and the effect of
   writing and of (selective) reading.

   Values are indexes into a table of floating-point values in increasing order that is closed
   under rounding to single precision; Tab.R32 is that rounding and Tab.h8l, h8b, h4l, h4b are
   the hexadecimal images of each value as 8/4-byte little/big-endian words.

   A data object (register) is a record
     [ndim, lr1, nv, time, istep, wdsz, endian, elmap, dt, el]
   nv = number of position, velocity, pressure, temperature and scalar components stored,
   el[e] = <<pos, vel, pres, temp, scal>>, each a sequence of components, each a sequence of
   values with x varying fastest; pos and vel always have three components.

   An abstract file is [hdr, endian, map, blk, trl]: blk is the sequence of blocks (one block =
   one component of one element) in file order and trl the min/max trailer.                    *)
EXTENDS Util
CONSTANT Tab

R32(v) == Tab.R32[v]
ZeroV == Tab.zero
NPts(lr1) == lr1[1] * lr1[2] * lr1[3]
NComp(g, nv) == IF g \in {1, 2} THEN 3 ELSE nv[g]      \* components in memory
Zeros(np) == [i \in 1..np |-> ZeroV]
ZeroElem(nv, np) == [g \in 1..5 |-> [c \in 1..NComp(g, nv) |-> Zeros(np)]]

(* ------------------------------ header ------------------------------ *)
VarText(nv) == (IF nv[1] > 0 THEN "X" ELSE "") \o (IF nv[2] > 0 THEN "U" ELSE "")
            \o (IF nv[3] > 0 THEN "P" ELSE "") \o (IF nv[4] > 0 THEN "T" ELSE "")
            \o (IF nv[5] > 0 THEN "S" \o Zero2(nv[5]) ELSE "")

(* hdr = [wdsz, lr1, nelt, nelf, time, istep, fid, nf, nv, extra]; time is its decimal text *)
HeaderText(h) ==
  PadR("#std " \o ToString(h.wdsz) \o " " \o Num(h.lr1[1], 2) \o " " \o Num(h.lr1[2], 2) \o " "
       \o Num(h.lr1[3], 2) \o " " \o Num(h.nelt, 10) \o " " \o Num(h.nelf, 10) \o " "
       \o PadL(h.time, 20) \o " " \o Num(h.istep, 9) \o " " \o Num(h.fid, 6) \o " " \o Num(h.nf, 6)
       \o " " \o VarText(h.nv) \o h.extra, 132)

(* ------------------------------ layout ------------------------------ *)
(* Blocks: X, U, P, T element by element, then the scalars one after the other. *)
NBlocks(nv, n) == n * (nv[1] + nv[2] + nv[3] + nv[4] + nv[5])
GroupBase(nv, n, g) == n * SumTo(nv, g - 1)
BlockIndex(nv, n, g, c, e) ==
  IF g < 5 THEN GroupBase(nv, n, g) + (e - 1) * nv[g] + c
           ELSE GroupBase(nv, n, 5) + (c - 1) * n + e
(* the inverse: which component of which element (position in the map) block k holds *)
BlockAt(nv, n, k) ==
  LET g == CHOOSE g \in 1..5 : GroupBase(nv, n, g) < k /\ k <= GroupBase(nv, n, g + 1)
      j == k - 1 - GroupBase(nv, n, g)
  IN  IF g < 5 THEN <<g, (j % nv[g]) + 1, (j \div nv[g]) + 1>>
               ELSE <<g, (j \div n) + 1, (j % n) + 1>>
(* the trailer holds min and max of every component, element by element within each group *)
TrailerAt(nv, n, k) ==
  LET q == (k + 1) \div 2
      g == CHOOSE g \in 1..5 : GroupBase(nv, n, g) < q /\ q <= GroupBase(nv, n, g + 1)
      j == q - 1 - GroupBase(nv, n, g)
  IN  <<g, (j % nv[g]) + 1, (j \div nv[g]) + 1, IF k % 2 = 1 THEN "min" ELSE "max">>

FileSize(F) == 136 + 4 * Len(F.map) + Len(F.blk) * NPts(F.hdr.lr1) * F.hdr.wdsz + 4 * Len(F.trl)
BlockStart(F, k) == 136 + 4 * Len(F.map) + (k - 1) * NPts(F.hdr.lr1) * F.hdr.wdsz

ValHex(v, wdsz, endian) ==
  IF wdsz = 8 THEN IF endian = "little" THEN Tab.h8l[v] ELSE Tab.h8b[v]
              ELSE IF endian = "little" THEN Tab.h4l[v] ELSE Tab.h4b[v]

(* the body text (hexadecimal) obs is the byte image of F after the 132-byte header *)
ImageClauses(F, obs) ==
  LET n == Len(F.map)
      np == NPts(F.hdr.lr1)
      w == 2 * F.hdr.wdsz
      nv == Len(F.blk) * np
      o1 == 8 + 8 * n
      o2 == o1 + nv * w
  IN  << <<"layout.size", Len(obs) = 2 * (FileSize(F) - 132)>>,
         <<"layout.tag", WordsAt(obs, 0, 8, 1, LAMBDA k : TagHex(F.endian))>>,
         <<"layout.map", WordsAt(obs, 8, 8, n, LAMBDA k : IntHex(F.map[k], F.endian))>>,
         <<"layout.data", WordsAt(obs, o1, w, nv,
              LAMBDA k : ValHex(F.blk[((k - 1) \div np) + 1][((k - 1) % np) + 1], F.hdr.wdsz, F.endian))>>,
         (* extrema of values that are not all numbers are left open: 0 *)
         <<"layout.trailer", LET word(k) == SubSeq(obs, o2 + 8 * k - 7, o2 + 8 * k)
                             IN WordsAt(obs, o2, 8, Len(F.trl),
              LAMBDA k : IF F.trl[k] = 0 THEN word(k) ELSE ValHex(R32(F.trl[k]), 4, F.endian))>> >>

(* ------------------------------ writing ------------------------------ *)
Writable(f) == f.wdsz \in {4, 8}
WriteFile(f) ==
  LET n == Len(f.elmap)
      nv == f.nv
      np == NPts(f.lr1)
      val(v) == IF f.wdsz = 4 THEN R32(v) ELSE v
      comp(g, c, e) == f.el[f.elmap[e]][g][c]
  IN  [hdr |-> [wdsz |-> f.wdsz, lr1 |-> f.lr1, nelt |-> Len(f.el), nelf |-> Len(f.el),
                time |-> f.time, istep |-> f.istep, fid |-> 0, nf |-> 1, nv |-> nv, extra |-> ""],
       endian |-> f.endian,
       map |-> f.elmap,
       blk |-> [k \in 1..NBlocks(nv, n) |->
                  LET b == BlockAt(nv, n, k) cc == comp(b[1], b[2], b[3])
                  IN [i \in 1..np |-> val(cc[i])]],
       trl |-> IF f.ndim = 2 THEN <<>>
               ELSE [k \in 1..(2 * NBlocks(nv, n)) |->
                       LET t == TrailerAt(nv, n, k) cc == comp(t[1], t[2], t[3])
                       IN IF Tab.nan > 0 /\ Tab.nan \in Range(cc) THEN 0
                          ELSE IF t[4] = "min" THEN SetMin(Range(cc)) ELSE SetMax(Range(cc))]]

(* ------------------------------ reading ------------------------------ *)
(* documented names of components that may be skipped *)
SkipNames == [x |-> <<1, 1>>, y |-> <<1, 2>>, z |-> <<1, 3>>,
              ux |-> <<2, 1>>, uy |-> <<2, 2>>, uz |-> <<2, 3>>,
              vx |-> <<2, 1>>, vy |-> <<2, 2>>, vz |-> <<2, 3>>,
              pressure |-> <<3, 1>>, p |-> <<3, 1>>, temperature |-> <<4, 1>>, t |-> <<4, 1>>]
SkipSet(names) ==
  {SkipNames[names[i]] : i \in {j \in DOMAIN names : names[j] \in DOMAIN SkipNames}}
  \cup {<<5, s>> : s \in {s \in 1..99 : ("s" \o Zero2(s)) \in Range(names)}}

(* element that the e-th entry of the map designates *)
MapTo(map) == IF 0 \in Range(map) THEN [e \in DOMAIN map |-> e] ELSE map
(* the element map of the data object: a zeroed one is unusable and replaced by the file order *)
MemMap(map) == MapTo(map)

Wanted(F, skip) ==
  {k \in 1..Len(F.blk) : LET b == BlockAt(F.hdr.nv, Len(F.map), k) IN <<b[1], b[2]>> \notin skip}

(* what a reader may do with the first avail bytes of the file *)
MustRaise(F, avail, skip) ==
  \/ avail < 136 + 4 * Len(F.map)
  \/ \E k \in Wanted(F, skip) : BlockStart(F, k + 1) > avail
MustSucceed(F, avail) == avail = FileSize(F)

ReadFile(F, dt, skip) ==
  LET n == Len(F.map)
      np == NPts(F.hdr.lr1)
      nv == F.hdr.nv
      to == MapTo(F.map)
      at == IF \A e \in 1..n : to[to[e]] = e THEN to             \* place of element e in the file
            ELSE [e \in 1..n |-> CHOOSE j \in 1..n : to[j] = e]
      val(v) == IF dt = "f4" THEN R32(v) ELSE v
      comp(g, c, e) ==
        IF c > nv[g] \/ <<g, c>> \in skip THEN Zeros(np)
        ELSE LET b == F.blk[BlockIndex(nv, n, g, c, at[e])] IN [i \in 1..np |-> val(b[i])]
  IN  [ndim |-> IF F.hdr.lr1[3] > 1 THEN 3 ELSE 2,
       lr1 |-> F.hdr.lr1, nv |-> nv, time |-> F.hdr.time, istep |-> F.hdr.istep,
       wdsz |-> F.hdr.wdsz, endian |-> F.endian, elmap |-> MemMap(F.map), dt |-> dt,
       el |-> [e \in 1..n |-> [g \in 1..5 |-> [c \in 1..NComp(g, nv) |-> comp(g, c, e)]]]]

(* ------------------------------ well-formedness ------------------------------ *)
WellFormed(f) ==
  /\ f.ndim \in {2, 3} /\ (f.ndim = 3) = (f.lr1[3] > 1)
  /\ f.nv[1] \in {0, f.ndim} /\ f.nv[2] \in {0, f.ndim} /\ f.nv[3] \in {0, 1} /\ f.nv[4] \in {0, 1}
  /\ Len(f.elmap) = Len(f.el) /\ IsPerm(f.elmap)
  /\ \A e \in DOMAIN f.el : \A g \in 1..5 : Len(f.el[e][g]) = NComp(g, f.nv)
       /\ \A c \in DOMAIN f.el[e][g] : Len(f.el[e][g][c]) = NPts(f.lr1)

(* what survives a save and a load of f: everything, rounded if asked *)
Canon(f, dt) ==
  LET val(v) == IF f.wdsz = 4 \/ dt = "f4" THEN R32(v) ELSE v
      stored(g, c) == c <= f.nv[g]
  IN  [f EXCEPT !.dt = dt,
       !.el = [e \in DOMAIN f.el |-> [g \in 1..5 |-> [c \in DOMAIN f.el[e][g] |->
                 [i \in DOMAIN f.el[e][g][c] |->
                    IF stored(g, c) THEN val(f.el[e][g][c][i]) ELSE ZeroV]]]]]
==============================================================================
