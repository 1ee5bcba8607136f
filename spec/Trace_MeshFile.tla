----------------------------- MODULE Trace_MeshFile -----------------------------
(* Judges recorded executions of the readers and writers of mesh files. *)
EXTENDS MeshFile, Json, IOUtils
VARIABLES tid, l, heap, fs

Data == JsonDeserialize(IOEnv.TRACE_FILE)
TraceTab == Data.tab
Trace(i) == Data.traces[i].ev

MeshClauses(x, o) ==
  << <<"meta.ndim", o.ndim = x.ndim>>, <<"meta.nel", o.nel = x.nel /\ Len(o.el) = Len(x.el)>>,
     <<"meta.lr1", o.lr1 = x.lr1>>, <<"meta.var", o.nv = x.nv>>, <<"meta.nbc", o.nbc = x.nbc>>,
     <<"meta.ncurv", o.ncurv = x.ncurv>>, <<"meta.wdsz", o.wdsz = x.wdsz>>,
     <<"meta.endian", o.endian = x.endian>>, <<"meta.elmap", o.elmap = x.elmap>> >>
  \o IF Len(o.el) # Len(x.el) THEN <<>> ELSE
  << <<"vertices", \A e \in DOMAIN x.el : o.el[e].pos = x.el[e].pos>>,
     <<"curves", \A e \in DOMAIN x.el : o.el[e].cv = x.el[e].cv>>,
     <<"conditions", \A e \in DOMAIN x.el : o.el[e].bc = x.el[e].bc>> >>

Pure(e) == << <<"objects.unchanged", Range(e.chg) = {}>> >>
PureBut(e, r) == << <<"objects.unchanged", Range(e.chg) \subseteq {r}>> >>
Disk(e, allowed) == << <<"files.unchanged", Range(e.chgf) \subseteq allowed>> >>
Ok(e) == << <<"must.succeed", e.st = "ok">> >>
Refused(e) == << <<"must.be.refused", e.st = "err">> >>
Res(h, f, cl) == [heap |-> h, fs |-> f, cl |-> cl]

StepNew(e) == Res((e.r :> e.post) @@ heap, fs, << <<"new.object", WellFormedMesh(e.post)>> >>)

(* ---- large meshes seen through a window ---- *)
(* o = [E, el, elmap (as runs <<first, length>>), carry (the elements that carry a curvature or a
   condition), and the numbers of any mesh]                                                     *)
Carrying(m) == {i \in DOMAIN m.el : m.el[i].cv # <<>> \/ \E b \in DOMAIN m.el[i].bc : m.el[i].bc[b] # <<>>}
WindowClauses(x, o) ==
  << <<"meta.ndim", o.ndim = x.ndim>>, <<"meta.nel", o.nel = x.nel>>,
     <<"meta.lr1", o.lr1 = x.lr1>>, <<"meta.var", o.nv = x.nv>>, <<"meta.nbc", o.nbc = x.nbc>>,
     <<"meta.ncurv", o.ncurv = x.ncurv>>, <<"meta.endian", o.endian = x.endian>>,
     <<"meta.elmap", o.elmap = << <<1, x.nel>> >> >>,
     <<"others.carry.nothing", Range(o.carry) = Carrying(x)>>,
     <<"vertices", \A e \in DOMAIN x.el : WindowMesh(o).el[e].pos = x.el[e].pos>>,
     <<"curves", \A e \in DOMAIN x.el : WindowMesh(o).el[e].cv = x.el[e].cv>>,
     <<"conditions", \A e \in DOMAIN x.el : WindowMesh(o).el[e].bc = x.el[e].bc>> >>
(* ---- re2 ---- *)
StepWriteRe2(e) ==
  LET m == heap[e.r] IN
  IF ~Re2Writable(m) THEN Res(heap, fs, Refused(e) \o Pure(e) \o Disk(e, {}))
  ELSE LET F == WriteRe2(m) IN
       Res(heap, (e.fn :> [k |-> "re2", F |-> F, avail |-> Re2Size(F)]) @@ fs,
           Ok(e) \o Pure(e) \o Disk(e, {e.fn})
           \o IF e.st # "ok" THEN <<>> ELSE << <<"re2.header", e.img.h = Re2Header(F)>> >> \o Re2Image(F, e.img.b))
StepPutRe2(e) ==
  Res(heap, (e.fn :> [k |-> "re2", F |-> e.F, avail |-> Re2Size(e.F)]) @@ fs,
      << <<"HARNESS", /\ e.img.h = Re2Header(e.F) /\ \A c \in Range(Re2Image(e.F, e.img.b)) : c[2]
                      /\ \A j \in DOMAIN e.F.cv : SubSeq(e.F.cv[j].x, 1, 2) = TextHex(e.F.cv[j].t)>> >>)
StepReadRe2(e) ==
  LET x == fs[e.fn] IN
  IF ~Re2MayRead(x.F, x.avail) THEN Res(heap, fs, Refused(e) \o Pure(e) \o Disk(e, {}))
  ELSE LET m == ReadRe2(x.F, Re2Sections(x.F, x.avail)) IN
       Res(IF e.st = "ok" THEN (e.r :> m) @@ heap ELSE heap, fs,
           (IF x.avail = Re2Size(x.F) THEN Ok(e) ELSE << <<"no.hang", e.st \in {"ok", "err"}>> >>)
           \o PureBut(e, e.r) \o Disk(e, {}) \o IF e.st = "ok" THEN MeshClauses(m, e.post) ELSE <<>>)

(* the same, large meshes seen through a window *)
WindowFile(F) == [F EXCEPT !.geo = [e \in Range(F.E) |-> F.geo[CHOOSE j \in DOMAIN F.E : F.E[j] = e]],
                           !.grp = [e \in Range(F.E) |-> F.grp[CHOOSE j \in DOMAIN F.E : F.E[j] = e]]]
StepPutRe2Win(e) ==
  LET F == WindowFile(e.F) IN
  Res(heap, (e.fn :> [k |-> "re2", F |-> F, avail |-> Re2Size(F)]) @@ fs,
      << <<"HARNESS", /\ e.w.head = Re2Header(F) /\ \A c \in Range(Re2Window(F, e.w, e.F.E)) : c[2]>> >>)
StepWriteRe2Win(e) ==
  LET F == WriteRe2(heap[e.r]) IN
  Res(heap, (e.fn :> [k |-> "re2", F |-> F, avail |-> Re2Size(F)]) @@ fs,
      Ok(e) \o IF e.st # "ok" THEN <<>> ELSE
        << <<"re2.header", e.w.head = Re2Header(F)>> >> \o Re2Window(F, e.w, Elems(heap[e.r])))
StepReadRe2Win(e) ==
  LET x == fs[e.fn] m == ReadRe2(x.F, Len(x.F.bf)) IN
  Res(heap, fs, Ok(e) \o IF e.st = "ok" THEN WindowClauses(m, e.post) ELSE <<>>)

(* ---- rea ---- *)
(* e.sys: byte order of the machine, which a .rea file does not state *)
StepWriteRea(e) ==
  LET m == heap[e.r] IN
  Res(heap, (e.fn :> [k |-> "rea", F |-> [ReaContent(m, LayoutOf(m.nel)) EXCEPT !.bf =
                [b \in DOMAIN @ |-> [i \in DOMAIN @[b] |-> [k \in DOMAIN @[b][i] |->
                   IF LayoutOf(m.nel) = 2 THEN [@[b][i][k] EXCEPT !.e = i, !.f = k] ELSE @[b][i][k]]]]],
                avail |-> -1]) @@ fs,
      Ok(e) \o Pure(e) \o Disk(e, {e.fn}) \o IF e.st # "ok" THEN <<>> ELSE ReaClauses(m, e.lines, 0))
StepPutRea(e) ==
  LET F == ParseRea(e.lines, 0) IN
  Res(heap, (e.fn :> [k |-> "rea", F |-> F, avail |-> -1]) @@ fs,
      << <<"HARNESS", /\ F.ok
                      /\ \A i \in DOMAIN F.geo : \A d \in DOMAIN F.geo[i] : 0 \notin Range(F.geo[i][d])
                      /\ \A j \in DOMAIN F.cv : 0 \notin Range(F.cv[j].p)
                      /\ \A b \in DOMAIN F.bf : \A i \in DOMAIN F.bf[b] : \A k \in DOMAIN F.bf[b][i] :
                           0 \notin Range(F.bf[b][i][k].p) /\ F.bf[b][i][k].e >= 0 /\ F.bf[b][i][k].f >= 0>> >>)
StepReadRea(e) ==
  LET m == [ReadRea(fs[e.fn].F) EXCEPT !.endian = e.sys] IN
  Res(IF e.st = "ok" THEN (e.r :> m) @@ heap ELSE heap, fs,
      Ok(e) \o PureBut(e, e.r) \o Disk(e, {}) \o IF e.st = "ok" THEN MeshClauses(m, e.post) ELSE <<>>)

(* ---- rea, large meshes ---- *)
StepNewWin(e) == Res((e.r :> WindowMesh(e.post)) @@ heap, fs,
                     << <<"HARNESS", Carrying(WindowMesh(e.post)) = Range(e.post.carry)>> >>)
StepWriteReaWin(e) ==
  LET m == heap[e.r] P == ParseWindow(e.w, DOMAIN m.el) IN
  Res(heap, (e.fn :> [k |-> "rea", F |-> P, avail |-> -1]) @@ fs,
      Ok(e) \o IF e.st # "ok" THEN <<>> ELSE ReaAgrees(m, P, LayoutOf(m.nel)))
StepPutReaWin(e) ==
  LET F == ParseWindow(e.w, Range(e.E)) IN
  Res(heap, (e.fn :> [k |-> "rea", F |-> F, avail |-> -1]) @@ fs,
      << <<"HARNESS", /\ F.ok /\ DOMAIN F.geo = Range(e.E)
                      /\ \A i \in DOMAIN F.geo : \A d \in DOMAIN F.geo[i] : 0 \notin Range(F.geo[i][d])
                      /\ \A j \in DOMAIN F.cv : 0 \notin Range(F.cv[j].p) /\ F.cv[j].e \in Range(e.E)
                      /\ \A b \in DOMAIN F.bf : \A i \in DOMAIN F.bf[b] : \A k \in DOMAIN F.bf[b][i] :
                           0 \notin Range(F.bf[b][i][k].p) /\ F.bf[b][i][k].e >= 0 /\ F.bf[b][i][k].f >= 0>> >>)
StepReadReaWin(e) ==
  LET m == [ReadRea(fs[e.fn].F) EXCEPT !.endian = e.sys] IN
  Res(heap, fs, Ok(e) \o IF e.st = "ok" THEN WindowClauses(m, e.post) ELSE <<>>)

(* ---- files in general ---- *)
StepCut(e) == Res(heap, [fs EXCEPT ![e.fn].avail = e.n], <<>>)
StepBadFile(e) == Res(heap, fs, Refused(e) \o Pure(e) \o Disk(e, {}))
(* the same or an equal object written twice gives the same bytes *)
StepSame(e) == Res(heap, fs, << <<"same.file", fs[e.fn].F = fs[e.gn].F => e.same>> >>)

(* ---- ma2 ---- *)
StepPutMa2(e) ==
  Res(heap, (e.fn :> [k |-> "ma2", F |-> e.F, avail |-> Ma2Size(e.F)]) @@ fs,
      << <<"HARNESS", /\ Ma2Valid(e.F) /\ e.img.h = Ma2Header(e.F) /\ \A c \in Range(Ma2Image(e.F, e.img.b)) : c[2]>> >>)
StepReadMa2(e) ==
  LET x == fs[e.fn] IN
  IF x.avail < Ma2Size(x.F) THEN Res(heap, fs, Refused(e) \o Disk(e, {}))
  ELSE LET m == ReadMa2(x.F) IN
       Res(heap, fs, Ok(e) \o Disk(e, {}) \o IF e.st # "ok" THEN <<>> ELSE
         << <<"ma2.cell", e.cell = m.cell>>, <<"ma2.procmap", e.proc = m.proc>> >>)

Step(e) == CASE e.op = "new" -> StepNew(e)
             [] e.op = "writere2" -> StepWriteRe2(e) [] e.op = "putre2" -> StepPutRe2(e)
             [] e.op = "readre2" -> StepReadRe2(e)
             [] e.op = "writerea" -> StepWriteRea(e) [] e.op = "putrea" -> StepPutRea(e)
             [] e.op = "readrea" -> StepReadRea(e)
             [] e.op = "newwin" -> StepNewWin(e) [] e.op = "writereawin" -> StepWriteReaWin(e)
             [] e.op = "putreawin" -> StepPutReaWin(e) [] e.op = "readreawin" -> StepReadReaWin(e)
             [] e.op = "putre2win" -> StepPutRe2Win(e) [] e.op = "writere2win" -> StepWriteRe2Win(e)
             [] e.op = "readre2win" -> StepReadRe2Win(e)
             [] e.op = "cut" -> StepCut(e) [] e.op = "badfile" -> StepBadFile(e)
             [] e.op = "same" -> StepSame(e)
             [] e.op = "putma2" -> StepPutMa2(e) [] e.op = "readma2" -> StepReadMa2(e)

Init == /\ tid \in 1..Len(Data.traces) /\ l = 1
        /\ heap = [r \in {} |-> 0] /\ fs = [f \in {} |-> 0]
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E r \in {Step(e)} : \E bad \in {Failing(r.cl)} :
       /\ heap' = r.heap /\ fs' = r.fs /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l, heap, fs>>
View == <<tid, l>>
=================================================================================
