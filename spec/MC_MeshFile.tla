----------------------------- MODULE MC_MeshFile -----------------------------
(* Exhaustive exploration of edit / save / load histories of small meshes in the two mesh file
   formats. What a mesh states is expressed as a set of facts, independently of any layout; the
   invariants say that files hold, and loading restores, exactly the facts that the formats keep. *)
EXTENDS MeshFile, Json
CONSTANTS Regs, Files, MaxOps, Shapes
VARIABLES heap, fs, truth, hist

MCTab == [zero |-> 1, int |-> <<1, 2, 3, 4, 5, 6, 7, 8, 9>>,
          h8l |-> [i \in 1..10 |-> IntHex(i - 1, "little") \o "00000000"],
          h8b |-> [i \in 1..10 |-> "00000000" \o IntHex(i - 1, "big")],
          e6 |-> <<"0.000000e+00", "1.000000e+00", "2.000000e+00", "3.000000e+00", "4.000000e+00", "5.000000e+00",
                   "6.000000e+00", "7.000000e+00", "8.000000e+00", "1.234568e-01">>,
          e11 |-> <<"0.00000000000e+00", "1.00000000000e+00", "2.00000000000e+00", "3.00000000000e+00",
                    "4.00000000000e+00", "5.00000000000e+00", "6.00000000000e+00", "7.00000000000e+00",
                    "8.00000000000e+00", "1.23456789012e-01">>,
          r6 |-> [i \in 1..10 |-> i], r11 |-> [i \in 1..10 |-> i],
          tok |-> [t \in {"0.000000e+00"} |-> 1]]
(* texts of both precisions *)
MCTok == [t \in Range(MCTab.e6) \cup Range(MCTab.e11) |->
            CHOOSE i \in 1..10 : MCTab.e6[i] = t \/ MCTab.e11[i] = t]
MCTabFull == [MCTab EXCEPT !.tok = MCTok]

P0 == <<ZeroV, ZeroV, ZeroV, ZeroV, ZeroV>>
P1 == <<2, 3, 1, 10, 4>>
MCShapes == {<<2, 1, 0>>, <<2, 1, 1>>, <<2, 2, 2>>, <<3, 1, 1>>, <<3, 1, 2>>}
Blank(nd, n, nbc) ==
  [ndim |-> nd, nel |-> n, lr1 |-> <<2, 2, nd - 1>>, nv |-> <<nd, 0, 0, 0, 0>>, nbc |-> nbc, ncurv |-> 0,
   wdsz |-> 8, endian |-> "little", elmap |-> [e \in 1..n |-> e],
   el |-> [e \in 1..n |-> [pos |-> [d \in 1..3 |-> IF d > nd THEN ZeroPos(nd)
                                     ELSE [i \in 1..NCorner(nd) |-> ((3 * e + 2 * d + i) % 10) + 1]],
                           cv |-> <<>>, bc |-> [b \in 1..nbc |-> <<>>]]]]

Facts(m) == {<<"v", e, d, i, m.el[e].pos[d][i]>> : e \in 1..m.nel, d \in 1..m.ndim, i \in 1..NCorner(m.ndim)}
  \cup UNION {{<<"c", e, m.el[e].cv[j].i, m.el[e].cv[j].t, m.el[e].cv[j].p>> : j \in DOMAIN m.el[e].cv} : e \in 1..m.nel}
  \cup UNION {{<<"b", b, e, m.el[e].bc[b][j].k, m.el[e].bc[b][j].t, m.el[e].bc[b][j].p>> : j \in DOMAIN m.el[e].bc[b]}
               : b \in 1..m.nbc, e \in 1..m.nel}
Kept(facts, kind) == {x \in facts : x[1] = "b" =>
   IF kind = "re2" THEN x[5] # "E" ELSE ~(x[5] = "E" /\ x[6][1] = ZeroV)}

Init == /\ \E s \in Shapes : /\ heap = [r \in Regs |-> Blank(s[1], s[2], s[3])]
                             /\ hist = <<[op |-> "shape", nd |-> s[1], nel |-> s[2], nbc |-> s[3]]>>
        /\ fs = [f \in {} |-> 0]
        /\ truth = [f \in {} |-> 0]
Log(x) == hist' = Append(hist, x)

Put(q, key(_), x, k) == ByKey({y \in Range(q) : key(y) # k} \cup {x}, key, 12)
SetBc(r, b, e, k, t, p) ==
  /\ b <= heap[r].nbc /\ e <= heap[r].nel /\ k <= 2 * heap[r].ndim
  /\ heap' = [heap EXCEPT ![r].el[e].bc[b] = Put(@, LAMBDA y : y.k, [k |-> k, t |-> t, e |-> e, f |-> k, p |-> p], k)]
  /\ UNCHANGED <<fs, truth>> /\ Log([op |-> "bc", r |-> r, b |-> b, e |-> e, k |-> k, t |-> t, z |-> p = P0])
SetCv(r, e, i, t) ==
  /\ e <= heap[r].nel
  /\ heap' = [heap EXCEPT ![r].el[e].cv = Put(@, LAMBDA y : y.i, [i |-> i, t |-> t, p |-> P1], i)]
  /\ UNCHANGED <<fs, truth>> /\ Log([op |-> "cv", r |-> r, e |-> e, i |-> i, t |-> t])
Endian(r) ==
  /\ heap' = [heap EXCEPT ![r].endian = IF @ = "little" THEN "big" ELSE "little"]
  /\ UNCHANGED <<fs, truth>> /\ Log([op |-> "endian", r |-> r])
Write(r, f, kind) ==
  /\ fs' = (f :> [k |-> kind, F |-> IF kind = "re2" THEN WriteRe2(heap[r])
                                    ELSE ParseRea(ReaLines(ReaContent(heap[r], 1), 1), 1)]) @@ fs
  /\ truth' = (f :> Kept(Facts(heap[r]), kind)) @@ truth
  /\ UNCHANGED heap /\ Log([op |-> "write", r |-> r, fn |-> f, k |-> kind])
Read(f, r) ==
  /\ f \in DOMAIN fs
  /\ heap' = [heap EXCEPT ![r] = IF fs[f].k = "re2" THEN ReadRe2(fs[f].F, Len(fs[f].F.bf)) ELSE ReadRea(fs[f].F)]
  /\ UNCHANGED <<fs, truth>> /\ Log([op |-> "read", fn |-> f, r |-> r])

Next == /\ Len(hist) <= MaxOps
        /\ \E r \in Regs :
             \/ \E b \in 1..2, e \in 1..2, k \in {1, 4} : \E t \in {"E", "W", "SYM"} : \E p \in {P0, P1} : SetBc(r, b, e, k, t, p)
             \/ \E e \in 1..2, i \in {1, 4} : \E t \in {"m", "C"} : SetCv(r, e, i, t)
             \/ Endian(r)
             \/ \E f \in Files : \E kind \in {"re2", "rea"} : Write(r, f, kind)
             \/ \E f \in Files : Read(f, r)
vars == <<heap, fs, truth, hist>>
Spec == Init /\ [][Next]_vars
(* for simulation: every kind of call equally often *)
OneOf(S) == {RandomElement(S)}
GenNext == /\ Len(hist) <= MaxOps
           /\ \E r \in Regs :
                \/ \E b \in OneOf(1..2), e \in OneOf(1..2), k \in OneOf(1..6), t \in OneOf({"E", "W", "SYM"}), p \in OneOf({P0, P1}) : SetBc(r, b, e, k, t, p)
                \/ \E e \in OneOf(1..2), i \in OneOf(1..4) : \E t \in OneOf({"m", "C"}) : SetCv(r, e, i, t)
                \/ Endian(r)
                \/ \E f \in OneOf(Files) : \E kind \in OneOf({"re2", "rea"}) : Write(r, f, kind)
                \/ \E f \in OneOf(Files) : Read(f, r)
GenSpec == Init /\ [][GenNext]_vars
View == <<heap, fs, truth>>

InvWellFormed == \A r \in Regs : WellFormedMesh(heap[r])
InvFile == \A f \in DOMAIN fs :
  Facts(IF fs[f].k = "re2" THEN ReadRe2(fs[f].F, Len(fs[f].F.bf)) ELSE ReadRea(fs[f].F)) = truth[f]
(* what is decoded from the lines of a file, in each of the column layouts, is what they state *)
InvRea == \A r \in Regs : \A lay \in 1..3 :
  LET X == ReaContent(heap[r], lay) P == ParseRea(ReaLines(X, lay), lay) IN
  /\ P.ok /\ P.geo = X.geo /\ P.cv = X.cv
  /\ \A c \in Range(ReaClauses(heap[r], ReaLines(X, lay), lay)) : c[2]
(* canonical form; writing what was read changes nothing *)
InvRe2 == \A r \in Regs :
  LET F == WriteRe2(heap[r]) m == ReadRe2(F, Len(F.bf)) IN
  /\ m = CanonRe2(heap[r]) /\ CanonRe2(m) = m
  /\ heap[r].nbc > 0 => WriteRe2(m) = F
  /\ Re2MayRead(F, Re2Size(F)) /\ Re2Sections(F, Re2Size(F)) = Len(F.bf)
  /\ ~Re2MayRead(F, Re2Size(F) - 1) /\ ~Re2MayRead(F, Re2CvAt(F))
Emit == (Len(hist) = MaxOps + 1) => PrintT("HIST|" \o ToJson(hist))
===============================================================================
