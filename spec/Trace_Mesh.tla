------------------------------ MODULE Trace_Mesh ------------------------------
(* Judges recorded executions of the mesh operations. An event carries the arguments of one public
   call, its outcome, the state of the register it changes or creates, the other registers whose
   content changed, and any storage that turned out to be shared.                               *)
EXTENDS Mesh, Json, IOUtils
VARIABLES tid, l, heap

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Trace(i) == Data.traces[i].ev

Meta == <<"ndim", "lr1", "nbc">>
(* o observed, x expected; loose: the element map is only required to be a permutation *)
Clauses(x, o, loose) ==
  << <<"meta.ndim", o.ndim = x.ndim>>, <<"meta.lr1", o.lr1 = x.lr1>>, <<"meta.var", o.nv = x.nv>>,
     <<"meta.nbc", o.nbc = x.nbc>>, <<"meta.nel", o.nel = x.nel>>, <<"meta.ncurv", o.ncurv = x.ncurv>>,
     <<"meta.elmap", IF loose THEN BookMap(o) ELSE o.elmap = x.elmap>>,
     <<"elements", Len(o.el) = Len(x.el)>> >>
  \o IF Len(o.el) # Len(x.el) THEN <<>> ELSE
  << <<"vertices", \A i \in DOMAIN x.el : o.el[i].pos = x.el[i].pos>>,
     <<"curves", \A i \in DOMAIN x.el : o.el[i].cv = x.el[i].cv>>,
     <<"fields", \A i \in DOMAIN x.el : Len(o.el[i].bc) = Len(x.el[i].bc)>>,
     <<"conditions", \A i \in DOMAIN x.el : \A b \in 1..Min2(Len(o.el[i].bc), Len(x.el[i].bc)) :
         \A k \in 1..6 : LET c == o.el[i].bc[b][k] d == x.el[i].bc[b][k] IN
            T(c) = T(d) /\ LnkE(c) = LnkE(d) /\ LnkF(c) = LnkF(d) /\ c[6] = d[6] /\ c[7] = d[7] /\ c[8] = d[8]>>,
     <<"own.references", \A i \in DOMAIN x.el : \A b \in 1..Min2(Len(o.el[i].bc), Len(x.el[i].bc)) :
         \A k \in 1..6 : LET c == o.el[i].bc[b][k] d == x.el[i].bc[b][k] IN OwnE(c) = OwnE(d) /\ OwnF(c) = OwnF(d)>> >>

Book(o, pre) ==
  << <<"book.nel", BookCounts(o)>>, <<"book.elmap", BookMap(o)>>, <<"book.ncurv", BookCurv(o)>>,
     <<"book.fields", BookFields(o)>>, <<"book.own", BookOwn(o)>>,
     <<"book.links", (pre /\ BookFields(o)) => LinksOk(o)>> >>

Ok(e) == << <<"must.succeed", e.st = "ok">> >>
Refused(e) == << <<"must.be.refused", e.st = "err">> >>
Only(e, regs) == << <<"others.unchanged", Range(e.chg) \subseteq regs>>, <<"nothing.shared", e.shared = <<>> >> >>
Ret(e, v) == << <<"returned", e.ret = v>> >>
Res(h, cl) == [heap |-> h, cl |-> cl]

(* a call that must leave every object alone *)
Reject(e) == Res(heap, Refused(e) \o Only(e, {}))
(* a call that puts mesh x into register r *)
Gives(e, r, x, loose, pre, more) ==
  Res((r :> IF loose /\ e.st = "ok" THEN [x EXCEPT !.elmap = e.post.elmap] ELSE x) @@ heap,
      Ok(e) \o Only(e, {r}) \o IF e.st # "ok" THEN <<>> ELSE more \o Clauses(x, e.post, loose) \o Book(e.post, pre))

StepNew(e) ==
  Res((e.r :> e.post) @@ heap,
      << <<"new.object", WellFormed(e.post) /\ BookCurv(e.post) /\ BookOwn(e.post)>> >>)
(* a value changed by hand: only that register may change *)
StepPoke(e) == Res((e.r :> e.post) @@ heap, Only(e, {e.r}))
StepCopy(e) == Res((e.r :> heap[e.a]) @@ heap, Only(e, {e.r}))

StepBox(e) ==
  IF e.x1 <= e.x0 \/ e.y1 <= e.y0 THEN Reject(e)
  ELSE LET x == Box(e.nx, e.ny, e.x0, e.x1, e.y0, e.y1, e.nv, DefaultBcs(e.nv, e.bcs), e.ib) IN
       Gives(e, e.r, x, FALSE, LinksOk(x), <<>>)
StepMerge(e) ==
  IF ~Mergeable(heap[e.r], heap[e.b]) THEN Reject(e)
  ELSE LET R == Merge(heap[e.r], heap[e.b], e.num, e.den, e.ie, e.ia) IN
       Gives(e, e.r, R.m, FALSE, LinksOk(R.m), Ret(e, R.n))
StepGenInt(e) ==
  IF HasZeroEdge(heap[e.r]) THEN Reject(e)
  ELSE LET R == GenerateInternal(heap[e.r], e.num, e.den) IN
       Gives(e, e.r, R.m, FALSE, LinksOk(heap[e.r]), Ret(e, R.n))
StepDelInt(e) ==
  Gives(e, e.r, DeleteInternal(heap[e.r]), FALSE, LinksOk(heap[e.r]), Ret(e, NInternal(heap[e.r])))
StepKeep(e) ==
  LET S == {x + 1 : x \in Range(e.els)} IN
  IF \E x \in S : x > heap[e.r].nel THEN Reject(e)
  ELSE Gives(e, e.r, Keep(heap[e.r], S, e.ext), TRUE, LinksOk(heap[e.r]) /\ e.ext \notin {"E", "P"}, <<>>)
StepShift(e) ==
  LET x == Shift(heap[e.r], e.off, e.min) IN
  Res((e.r :> x) @@ heap, Ok(e) \o Only(e, {e.r}) \o IF e.st # "ok" THEN <<>> ELSE Clauses(x, e.post, FALSE))
StepExtrude(e) ==
  LET m == heap[e.a]
      b1 == IF e.b1 = <<"-">> THEN [b \in 1..m.nbc |-> "P"] ELSE e.b1
      b2 == IF e.b2 = <<"-">> THEN [b \in 1..m.nbc |-> "P"] ELSE e.b2 IN
  IF ~Extrudable(m, b1, b2) THEN Reject(e)
  ELSE Gives(e, e.r, Extrude(m, e.z, b1, b2, e.ib), TRUE, LinksOk(m), <<>>)
StepMap(e) ==
  LET m == heap[e.a] x == MapMesh(m, e.t, e.cu, e.bo) IN
  IF \E i \in DOMAIN m.el : \E j \in 1..4 : ToCurve(m.el[i], j, e.cu, e.bo) /\ ~Resolvable(m.el[i], j)
  THEN Res(heap, << <<"HARNESS", FALSE>> >>)
  ELSE Gives(e, e.r, x, FALSE, LinksOk(m), <<>>)
StepRotate(e) ==
  IF ~RotateExact(heap[e.r], e.c, e.s, e.d, e.x0, e.y0) THEN Res(heap, << <<"HARNESS", FALSE>> >>)
  ELSE Gives(e, e.r, Rotate(heap[e.r], e.c, e.s, e.d, e.x0, e.y0), FALSE, LinksOk(heap[e.r]), <<>>)
StepUpdate(e) == Gives(e, e.r, [heap[e.r] EXCEPT !.ncurv = NCurved(heap[e.r])], FALSE, LinksOk(heap[e.r]), <<>>)
StepReload(e) == Gives(e, e.r, Reload(heap[e.a], e.kind), FALSE, LinksOk(heap[e.a]), <<>>)
(* a mesh made by an operation described elsewhere: only the bookkeeping is judged here *)
StepAdopt(e) ==
  Res((e.r :> e.post) @@ heap, Ok(e) \o Only(e, {e.r}) \o IF e.st # "ok" THEN <<>> ELSE Book(e.post, TRUE))

StepCheck(e) ==
  IF ConnectivityOk(heap[e.r], e.num, e.den) THEN Res(heap, Ok(e) \o Only(e, {}) \o Ret(e, 1))
  ELSE Res(heap, << <<"must.raise.ValueError", e.st = "err" /\ e.err = "ValueError">> >> \o Only(e, {}))
StepPresent(e) ==
  IF AllPresent(heap[e.r]) THEN Res(heap, Ok(e) \o Only(e, {}) \o Ret(e, 1))
  ELSE Res(heap, << <<"must.raise.ValueError", e.st = "err" /\ e.err = "ValueError">> >> \o Only(e, {}))

(* geometric queries: face centres (times 4), centroids (times the number of corners), shortest edges
   (squared), extents and points *)
StepGeometry(e) ==
  LET m == heap[e.r] n == NPoints(m) IN
  Res(heap, Ok(e) \o Only(e, {}) \o IF e.st # "ok" THEN <<>> ELSE
    << <<"face.centres", \A i \in DOMAIN m.el : \A k \in 1..6 : e.fc[i][k] = Centre4(m.ndim, CornerEl(m, i), k)>>,
       <<"centroids", n > 8 \/ (n > 4 /\ m.ndim = 2) \/ \A i \in DOMAIN m.el : \A d \in 1..3 : e.ce[i][d] = Sum(m.el[i].pos[d])>>,
       <<"shortest.edges", \A i \in DOMAIN m.el : e.se[i] = Edge2(m.ndim, CornerEl(m, i))>>,
       <<"points", /\ Len(e.pts) = m.nel
                   /\ \A i \in DOMAIN m.el : /\ Len(e.pts[i]) = n
                        /\ \A q \in 1..n : \A d \in 1..3 : e.pts[i][q][d] = m.el[i].pos[d][q]>>,
       <<"limits", m.nel = 0 \/ \A d \in 1..3 :
            LET S == UNION {Range(m.el[i].pos[d]) : i \in DOMAIN m.el} IN e.lims[d] = <<SetMin(S), SetMax(S)>> >>,
       <<"limits.fixed", e.fixed>> >>)

(* middles of all edges (twice), and circles through the ends of edges and given points *)
StepEdges(e) ==
  LET m == heap[e.r] n == IF m.ndim = 2 THEN 4 ELSE 12 IN
  IF \E i \in DOMAIN m.el : \E j \in 1..n : ~EdgeExact(m.ndim, m.el[i], j) THEN Res(heap, << <<"HARNESS", FALSE>> >>)
  ELSE Res(heap, Ok(e) \o Only(e, {}) \o IF e.st # "ok" THEN <<>> ELSE
    << <<"edge.middles", \A i \in DOMAIN m.el : \A j \in 1..n : e.mids[i][j] = EdgeTwice(m.ndim, m.el[i], j)>>,
       <<"edge.circles", \A q \in DOMAIN e.circ :
            LET x == e.circ[q] c == Edges(m.ndim)[x.j] el == m.el[x.i] IN
            CircleThrough(Corner(el, c[1]), x.m, Corner(el, c[2]), x.cv)>> >>)

Step(e) == CASE e.op = "new" -> StepNew(e) [] e.op = "poke" -> StepPoke(e) [] e.op = "copy" -> StepCopy(e)
             [] e.op = "box" -> StepBox(e) [] e.op = "merge" -> StepMerge(e)
             [] e.op = "genint" -> StepGenInt(e) [] e.op = "delint" -> StepDelInt(e)
             [] e.op = "keep" -> StepKeep(e) [] e.op = "shift" -> StepShift(e)
             [] e.op = "extrude" -> StepExtrude(e) [] e.op = "map" -> StepMap(e)
             [] e.op = "rotate" -> StepRotate(e) [] e.op = "update" -> StepUpdate(e)
             [] e.op = "reload" -> StepReload(e) [] e.op = "adopt" -> StepAdopt(e)
             [] e.op = "check" -> StepCheck(e) [] e.op = "present" -> StepPresent(e)
             [] e.op = "geometry" -> StepGeometry(e) [] e.op = "edges" -> StepEdges(e)

Init == tid \in 1..Len(Data.traces) /\ l = 1 /\ heap = [r \in {} |-> 0]
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E r \in {Step(e)} : \E bad \in {Failing(r.cl)} :
       /\ heap' = r.heap /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l, heap>>
View == <<tid, l>>
===============================================================================
