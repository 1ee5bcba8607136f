------------------------------ MODULE Trace_Vtk ------------------------------
(* Judges recorded conversions of fields into unstructured grids.                             *)
EXTENDS Vtk, Json, IOUtils
VARIABLES tid, l, heap

Data == JsonDeserialize(IOEnv.TRACE_FILE)
TraceTab == Data.tab
Trace(i) == Data.traces[i].ev

(* the arrays of name n *)
Named(g, n) == {i \in DOMAIN g.arrays : g.arrays[i].name = n}
ArrayClauses(g, n, vals) ==
  << <<"array." \o n, Cardinality(Named(g, n)) = 1 /\ \A i \in Named(g, n) : g.arrays[i].vals = vals>> >>
Flat(s) == [i \in 1..(3 * Len(s)) |-> s[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]]
Connectivity(cells) ==
  LET w == Len(cells[1]) + 1 IN
  [i \in 1..(Len(cells) * w) |-> LET k == (i - 1) % w IN IF k = 0 THEN w - 1 ELSE cells[((i - 1) \div w) + 1][k]]

GridClauses(g, m, down) ==
  LET x == TLCEval(Grid(m, down)) n == Len(x.cells) w == Len(x.cells[1]) IN
  << <<"points", g.points = Flat(x.points)>>,
     <<"number.of.cells", g.ncells = n>>,
     <<"cells", g.cells = Connectivity(x.cells)>>,
     <<"cell.types", g.types = [i \in 1..n |-> x.type]>>,
     <<"cell.locations", g.locations = [i \in 1..n |-> (i - 1) * (w + 1)]>> >>
  \o (IF m.nv[2] > 0 THEN ArrayClauses(g, "vel", Flat(x.velocity)) ELSE << <<"no.array.vel", Named(g, "vel") = {}>> >>)
  \o Concat([i \in DOMAIN x.scalars |-> ArrayClauses(g, x.scalars[i][1], x.scalars[i][2])])
  \o << <<"array.names", {g.arrays[i].name : i \in DOMAIN g.arrays}
            = {x.scalars[i][1] : i \in DOMAIN x.scalars} \cup (IF m.nv[2] > 0 THEN {"vel"} ELSE {})>> >>

Strip(p) == [ndim |-> p.ndim, lr1 |-> p.lr1, nv |-> p.nv, el |-> p.el]
Res(h, cl) == [heap |-> h, cl |-> cl]
StepNew(e) == Res((e.r :> Strip(e.post)) @@ heap, << <<"HARNESS", WellFormed(e.post)>> >>)
StepConvert(e) ==
  Res(heap, << <<"must.succeed", e.st = "ok">>, <<"field.unchanged", e.chg = <<>> >>, <<"files.unchanged", e.chgf = <<>> >> >>
            \o IF e.st = "ok" THEN GridClauses(e.grid, heap[e.r], e.down) ELSE <<>>)
(* the exported file: the complete grid, handed to the writer under the given name with extension vtp *)
StepExport(e) ==
  Res(heap, << <<"must.succeed", e.st = "ok">>, <<"field.unchanged", e.chg = <<>> >>, <<"file.name", e.written = e.want>> >>
            \o IF e.st = "ok" THEN GridClauses(e.grid, heap[e.r], FALSE) ELSE <<>>)
Step(e) == CASE e.op = "new" -> StepNew(e) [] e.op = "convert" -> StepConvert(e) [] e.op = "export" -> StepExport(e)

Init == tid \in 1..Len(Data.traces) /\ l = 1 /\ heap = <<>>
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E r \in {Step(e)} : \E bad \in {Failing(r.cl)} :
       /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1 /\ heap' = r.heap
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1 /\ heap' = heap
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l, heap>>
View == <<tid, l>>
===============================================================================
