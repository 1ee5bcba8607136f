------------------------------ MODULE Trace_Field ------------------------------
(* Judges recorded executions of the field reader and writer. Every event is one public call with
   its arguments, its outcome and the observed state afterwards; the state the specification
   expects is computed with the operators of FieldSys and compared clause by clause.            *)
EXTENDS FieldSys, Json, IOUtils
VARIABLES tid, l, heap, fs

Data == JsonDeserialize(IOEnv.TRACE_FILE)
TraceTab == Data.tab
Trace(i) == Data.traces[i].ev

RegClauses(exp, obs) ==
  << <<"meta.ndim", obs.ndim = exp.ndim>>, <<"meta.lr1", obs.lr1 = exp.lr1>>,
     <<"meta.var", obs.nv = exp.nv>>, <<"meta.time", obs.time = exp.time>>,
     <<"meta.istep", obs.istep = exp.istep>>, <<"meta.wdsz", obs.wdsz = exp.wdsz>>,
     <<"meta.endian", obs.endian = exp.endian>>, <<"meta.elmap", obs.elmap = exp.elmap>>,
     <<"meta.nel", obs.nel = Len(exp.el)>>, <<"meta.dtype", obs.dt = exp.dt>>,
     <<"values", obs.el = exp.el>> >>

Pure(e, allowed) == << <<"others.unchanged", Range(e.chg) \subseteq allowed>> >>
Disk(e, allowed) == << <<"files.unchanged", Range(e.chgf) \subseteq allowed>> >>
Ok(e) == << <<"must.succeed", e.st = "ok">> >>
Refused(e) == << <<"must.be.refused", e.st = "err">> >>

Res(h, f, cl) == [heap |-> h, fs |-> f, cl |-> cl]
Strip(p) == [ndim |-> p.ndim, lr1 |-> p.lr1, nv |-> p.nv, time |-> p.time, istep |-> p.istep,
             wdsz |-> p.wdsz, endian |-> p.endian, elmap |-> p.elmap, dt |-> p.dt, el |-> p.el]

StepNew(e) == Res((e.r :> Strip(e.post)) @@ heap, fs, << <<"new.object", WellFormed(e.post)>> >>)
StepMeta(e) == Res((e.r :> SetMeta(heap[e.r], e.k, e.v)) @@ heap, fs, << <<"HARNESS", e.post = e.v>> >>)

StepWrite(e) ==
  IF ~Writable(heap[e.r])
  THEN Res(heap, fs, Refused(e) \o Pure(e, {}) \o Disk(e, {}))
  ELSE LET F == WriteFile(heap[e.r]) IN
       Res(heap, (e.fn :> [F |-> F, avail |-> FileSize(F)]) @@ fs,
           Ok(e) \o Pure(e, {}) \o Disk(e, {e.fn})
           \o IF e.st # "ok" THEN <<>> ELSE
              << <<"layout.header", e.img.h = HeaderText(F.hdr)>> >> \o ImageClauses(F, e.img.b))

StepPut(e) ==
  Res(heap, (e.fn :> [F |-> e.F, avail |-> FileSize(e.F)]) @@ fs,
      << <<"HARNESS", /\ e.img.h = HeaderText(e.F.hdr)
                      /\ \A c \in Range(ImageClauses(e.F, e.img.b)) : c[2]>> >>)
StepCut(e) == Res(heap, [fs EXCEPT ![e.fn].avail = e.n], <<>>)

StepRead(e) ==
  LET x == fs[e.fn] skip == SkipSet(e.skip) IN
  IF MustRaise(x.F, x.avail, skip)
  THEN Res(heap, fs, Refused(e) \o Pure(e, {}) \o Disk(e, {}))
  ELSE LET exp == ReadFile(x.F, e.dt, skip) IN
       Res(IF e.st = "ok" THEN (e.r :> exp) @@ heap ELSE heap, fs,
           (IF MustSucceed(x.F, x.avail) THEN Ok(e) ELSE << <<"no.hang", e.st \in {"ok", "err"}>> >>)
           \o Pure(e, {e.r}) \o Disk(e, {})
           \o IF e.st = "ok" THEN RegClauses(exp, e.post) ELSE <<>>)

StepHeader(e) ==
  LET x == fs[e.fn] h == x.F.hdr IN
  IF x.avail < 132 THEN Res(heap, fs, Pure(e, {}) \o Disk(e, {}))
  ELSE Res(heap, fs, Ok(e) \o Pure(e, {}) \o Disk(e, {})
     \o IF e.st # "ok" THEN <<>> ELSE
        << <<"hdr.wdsz", e.h.wdsz = h.wdsz>>, <<"hdr.orders", e.h.lr1 = h.lr1>>,
           <<"hdr.nel", e.h.nelt = h.nelt /\ e.h.nelf = h.nelf>>, <<"hdr.time", e.h.time = h.time>>,
           <<"hdr.istep", e.h.istep = h.istep>>, <<"hdr.file", e.h.fid = h.fid /\ e.h.nf = h.nf>>,
           <<"hdr.vars", e.h.nv = h.nv /\ e.h.vars = VarText(h.nv)>>,
           <<"hdr.dims", e.h.ndim = IF h.lr1[3] > 1 THEN 3 ELSE 2>>,
           <<"hdr.npts", e.h.npts = NPts(h.lr1)>> >>)

(* a file whose tag is not the recognised one, or whose header has too few entries *)
StepBadFile(e) == Res(heap, fs, Refused(e) \o Pure(e, {}) \o Disk(e, {}))

(* queries: the limits of every component and the points of every element *)
StepLims(e) ==
  LET m == heap[e.r]
      lim(g, c) == LET S == UNION {Range(m.el[i][g][c]) : i \in DOMAIN m.el} IN <<SetMin(S), SetMax(S)>>
  IN Res(heap, fs, Ok(e) \o Pure(e, {}) \o Disk(e, {}) \o IF e.st # "ok" THEN <<>> ELSE
    << <<"limits", \A g \in 1..5 : /\ Len(e.lims[g]) = Len(m.el[1][g])
                                   /\ \A c \in DOMAIN m.el[1][g] : e.lims[g][c] = lim(g, c)>>,
       <<"limits.fixed", e.fixed>> >>)
StepPoints(e) ==
  LET m == heap[e.r] IN
  Res(heap, fs, Ok(e) \o Pure(e, {}) \o Disk(e, {}) \o IF e.st # "ok" THEN <<>> ELSE
    << <<"points", /\ Len(e.pts) = Len(m.el)
                   /\ \A i \in DOMAIN m.el : /\ Len(e.pts[i]) = NPts(m.lr1)
                        /\ \A q \in 1..NPts(m.lr1) : e.pts[i][q] = [d \in 1..3 |-> m.el[i][1][d][q]]>> >>)

Step(e) == CASE e.op = "new" -> StepNew(e) [] e.op = "meta" -> StepMeta(e)
             [] e.op = "write" -> StepWrite(e) [] e.op = "put" -> StepPut(e)
             [] e.op = "cut" -> StepCut(e) [] e.op = "read" -> StepRead(e)
             [] e.op = "lims" -> StepLims(e) [] e.op = "points" -> StepPoints(e)
             [] e.op = "header" -> StepHeader(e) [] e.op = "badfile" -> StepBadFile(e)

Init == /\ tid \in 1..Len(Data.traces) /\ l = 1
        /\ heap = [r \in {} |-> 0] /\ fs = [f \in {} |-> 0]
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E r \in {Step(e)} : \E bad \in {Failing(r.cl)} :
       /\ heap' = r.heap /\ fs' = r.fs /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l, heap, fs>>
View == <<tid, l>>
===============================================================================
