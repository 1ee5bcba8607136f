------------------------------- MODULE MC_Field -------------------------------
(* Exhaustive exploration of write/read/modify histories over two objects and two files. The
   ghost variables say, independently of any file layout, what content an object or file is
   supposed to hold; the invariants say that layout, reading and writing preserve it.          *)
EXTENDS FieldSys, Json
CONSTANTS Regs, Files, MaxOps, Variants
VARIABLES heap, fs, truth, ftruth, hist

MCTab == [R32 |-> <<1, 3, 3, 4>>, zero |-> 1, nan |-> 0,
          h8l |-> <<"0000000000000000", "0100000000000000", "0200000000000000", "0300000000000000">>,
          h8b |-> <<"0000000000000000", "0000000000000001", "0000000000000002", "0000000000000003">>,
          h4l |-> <<"00000000", "00000000", "01000000", "02000000">>,
          h4b |-> <<"00000000", "00000000", "00000001", "00000002">>]

Shapes == << [lr1 |-> <<1, 1, 2>>, nv |-> <<3, 3, 1, 1, 2>>, n |-> 2],
             [lr1 |-> <<2, 1, 1>>, nv |-> <<2, 0, 1, 0, 1>>, n |-> 2],
             [lr1 |-> <<1, 2, 1>>, nv |-> <<0, 2, 0, 1, 0>>, n |-> 3],
             [lr1 |-> <<1, 1, 2>>, nv |-> <<0, 0, 0, 0, 3>>, n |-> 2],
             [lr1 |-> <<2, 1, 1>>, nv |-> <<0, 0, 1, 1, 2>>, n |-> 1] >>
Content(s, salt) ==
  LET np == NPts(s.lr1) IN
  [e \in 1..s.n |-> [g \in 1..5 |-> [c \in 1..NComp(g, s.nv) |->
     IF c > s.nv[g] THEN Zeros(np) ELSE [i \in 1..np |-> ((e * 2 + g * 3 + c + i + salt) % 4) + 1]]]]
Obj(s, salt) == [ndim |-> IF s.lr1[3] > 1 THEN 3 ELSE 2, lr1 |-> s.lr1, nv |-> s.nv,
                 time |-> "1.0", istep |-> 7, wdsz |-> 8, endian |-> "little",
                 elmap |-> [e \in 1..s.n |-> e], dt |-> "f8", el |-> Content(s, salt)]

Init == \E s \in Variants :
  /\ heap = [r \in Regs |-> Obj(Shapes[s], s)]
  /\ truth = [r \in Regs |-> Content(Shapes[s], s)]
  /\ fs = [f \in {} |-> 0] /\ ftruth = [f \in {} |-> 0] /\ hist = <<>>

Log(x) == hist' = Append(hist, x)
RoundC(el) == [e \in DOMAIN el |-> [g \in 1..5 |-> [c \in DOMAIN el[e][g] |->
                 [i \in DOMAIN el[e][g][c] |-> R32(el[e][g][c][i])]]]]

Write(r, fn) ==
  /\ fs' = AfterWrite(heap, fs, r, fn)
  /\ ftruth' = IF Writable(heap[r])
               THEN (fn :> (IF heap[r].wdsz = 4 THEN RoundC(truth[r]) ELSE truth[r])) @@ ftruth ELSE ftruth
  /\ UNCHANGED <<heap, truth>> /\ Log([op |-> "write", r |-> r, fn |-> fn])
Read(fn, r, dt) ==
  /\ fn \in DOMAIN fs
  /\ heap' = AfterRead(heap, fs, fn, r, dt, {})
  /\ truth' = (r :> (IF dt = "f4" THEN RoundC(ftruth[fn]) ELSE ftruth[fn])) @@ truth
  /\ UNCHANGED <<fs, ftruth>> /\ Log([op |-> "read", r |-> r, fn |-> fn, dt |-> dt])
Wdsz(r, w) == /\ heap' = [heap EXCEPT ![r].wdsz = w] /\ heap[r].wdsz # w
              /\ UNCHANGED <<fs, truth, ftruth>> /\ Log([op |-> "wdsz", r |-> r, v |-> w])
Endian(r, e) == /\ heap' = [heap EXCEPT ![r].endian = e] /\ heap[r].endian # e
                /\ UNCHANGED <<fs, truth, ftruth>> /\ Log([op |-> "endian", r |-> r, v |-> e])
Reorder(r) == /\ Len(heap[r].elmap) > 1
              /\ LET m == heap[r].elmap IN
                 heap' = [heap EXCEPT ![r].elmap = [i \in DOMAIN m |-> m[(i % Len(m)) + 1]]]
              /\ UNCHANGED <<fs, truth, ftruth>> /\ Log([op |-> "reorder", r |-> r])
(* some faulty producer zeroes the map of a file whose blocks are in element order *)
ZeroMap(fn) ==
  /\ fn \in DOMAIN fs
  /\ LET m == fs[fn].F.map IN m = [i \in DOMAIN m |-> i] /\ fs' = [fs EXCEPT ![fn].F.map = [i \in DOMAIN m |-> 0]]
  /\ UNCHANGED <<heap, truth, ftruth>> /\ Log([op |-> "zeromap", fn |-> fn])

Next == /\ Len(hist) < MaxOps
        /\ \E r \in Regs :
             \/ \E fn \in Files : Write(r, fn) \/ Read(fn, r, "f8") \/ Read(fn, r, "f4")
             \/ \E w \in {3, 4, 8} : Wdsz(r, w)
             \/ \E e \in {"little", "big"} : Endian(r, e)
             \/ Reorder(r)
             \/ \E fn \in Files : ZeroMap(fn)

vars == <<heap, fs, truth, ftruth, hist>>
Spec == Init /\ [][Next]_vars
View == <<heap, fs, truth, ftruth>>

InvWellFormed == \A r \in Regs : WellFormed(heap[r])
InvContent == \A r \in Regs : heap[r].el = truth[r]
InvRoundTrip == \A r \in Regs : Writable(heap[r]) =>
   \A dt \in {"f8", "f4"} : ReadFile(WriteFile(heap[r]), dt, {}) = Canon(heap[r], dt)
(* layout: blocks are numbered one to one *)
InvLayout == \A fn \in DOMAIN fs :
   LET F == fs[fn].F n == Len(F.map) nv == F.hdr.nv IN
   /\ \A k \in 1..Len(F.blk) : LET b == BlockAt(nv, n, k) IN BlockIndex(nv, n, b[1], b[2], b[3]) = k
   /\ Len(HeaderText(F.hdr)) = 132
(* skipping only zeroes what is skipped *)
SkipChoices == {{}, {<<1, 1>>}, {<<2, 1>>, <<2, 2>>, <<2, 3>>}, {<<3, 1>>}, {<<5, 1>>}, {<<1, 2>>, <<4, 1>>, <<5, 2>>}}
InvSkip == \A fn \in DOMAIN fs : \A skip \in SkipChoices :
   LET a == ReadFile(fs[fn].F, "f8", {}) b == ReadFile(fs[fn].F, "f8", skip) IN
   [a EXCEPT !.el = <<>>] = [b EXCEPT !.el = <<>>]
   /\ \A e \in DOMAIN a.el : \A g \in 1..5 : \A c \in DOMAIN a.el[e][g] :
        b.el[e][g][c] = IF <<g, c>> \in skip THEN Zeros(NPts(a.lr1)) ELSE a.el[e][g][c]
(* damage: the intact file must be readable, and a cut that loses wanted data must be refused;
   the two are exclusive and monotone *)
InvCut == \A fn \in DOMAIN fs : LET F == fs[fn].F sz == FileSize(F) IN
   /\ ~MustRaise(F, sz, {}) /\ MustSucceed(F, sz)
   /\ \A n \in 0..sz : MustRaise(F, n, {}) =>
         (\A m \in 0..n : MustRaise(F, m, {})) /\ ~MustSucceed(F, n)
   /\ MustRaise(F, BlockStart(F, Len(F.blk) + 1) - 1, {}) = (Len(F.blk) > 0 \/ Len(F.map) > 0)

Emit == (Len(hist) = MaxOps) => PrintT("HIST|" \o ToJson(hist))
===============================================================================
