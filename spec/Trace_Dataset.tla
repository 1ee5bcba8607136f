---------------------------- MODULE Trace_Dataset ----------------------------
(* Judges recorded openings of field files as labelled arrays.                                *)
EXTENDS Dataset, Json, IOUtils
VARIABLES tid, l, fs

Data == JsonDeserialize(IOEnv.TRACE_FILE)
TraceTab == Data.tab
Trace(i) == Data.traces[i].ev

Res(f, cl) == [fs |-> f, cl |-> cl]
Still(e) == << <<"files.unchanged", e.chgf = <<>> >> >>

StepPut(e) ==
  Res((e.fn :> e.F) @@ fs,
      << <<"HARNESS", /\ e.img.h = HeaderText(e.F.hdr)
                      /\ \A c \in Range(ImageClauses(e.F, e.img.b)) : c[2]>> >>)

(* clauses on one variable: absent exactly when dropped; all zero or absent when the file does not
   hold it *)
VarClauses(d, nv, drop, v, vals, dims, size) ==
  LET here == {i \in DOMAIN d.names : d.names[i] = v[1]} IN
  IF v[1] \in drop THEN << <<"dropped." \o v[1], here = {}>> >>
  ELSE IF here = {} THEN << <<"present." \o v[1], v[1] \notin Held(nv)>> >>
  ELSE LET i == CHOOSE i \in here : TRUE IN
       << <<"dims." \o v[1], d.dims[i] = dims /\ d.shape[i] = size>>, <<"values." \o v[1], d.vals[i] = vals>> >>

DsClauses(d, m, drop) ==
  LET x == TLCEval(Labelled(m)) nm == Names(m.nv) IN
  << <<"coordinate.x", "x" \in drop \/ d.coord[1] = x.coord[1]>>,
     <<"coordinate.y", "y" \in drop \/ d.coord[2] = x.coord[2]>>,
     <<"coordinate.z", "z" \in drop \/ d.coord[3] = x.coord[3]>>,
     <<"coordinate.sorted", \A c \in Range(d.coord) : \A i \in 1..(Len(c) - 1) : c[i] <= c[i + 1]>>,
     <<"time", d.time = <<x.time>> >>,
     <<"names", Range(d.names) \subseteq {nm[i][1] : i \in DOMAIN nm}
                /\ Cardinality(Range(d.names)) = Len(d.names)>>,
     <<"axes", Range(d.axes) = {"x", "y", "z", "time"} \ drop>> >>
  \o Concat([v \in DOMAIN nm |-> VarClauses(d, m.nv, drop, nm[v], x.var[v][2], <<"z", "y", "x">>,
                                            <<x.size[3], x.size[2], x.size[1]>>)])

StepOpen(e) ==
  LET m == TLCEval(ReadFile(fs[e.fn], "f8", {})) IN
  IF ~Aligned(m) THEN Res(fs, << <<"unaligned.refused", e.st = "err">> >> \o Still(e))
  ELSE IF ~Box(m) THEN Res(fs, << <<"HARNESS", FALSE>> >>)
  ELSE Res(fs, << <<"box.opened", e.st = "ok">> >> \o Still(e)
                \o IF e.st = "ok" THEN DsClauses(e.ds, m, Range(e.drop)) ELSE <<>>)

(* several files of one mesh, in the order given *)
StepMany(e) ==
  LET n == Len(e.fns)
      ms == TLCEval([i \in 1..n |-> ReadFile(fs[e.fns[i]], "f8", {})])
      xs == TLCEval([i \in 1..n |-> Labelled(ms[i])])
      m == ms[1]
      nm == Names(m.nv)
  IN
  IF ~(\A i \in 1..n : Box(ms[i]) /\ xs[i].coord = xs[1].coord /\ ms[i].nv = m.nv) THEN Res(fs, << <<"HARNESS", FALSE>> >>)
  ELSE Res(fs, << <<"many.opened", e.st = "ok">> >> \o Still(e)
    \o IF e.st # "ok" THEN <<>> ELSE
       << <<"coordinate.x", e.ds.coord[1] = xs[1].coord[1]>>,
          <<"coordinate.y", e.ds.coord[2] = xs[1].coord[2]>>,
          <<"coordinate.z", e.ds.coord[3] = xs[1].coord[3]>>,
          <<"time", e.ds.time = [i \in 1..n |-> xs[i].time]>>,
          <<"axes", Range(e.ds.axes) = {"x", "y", "z", "time"}>> >>
       \o Concat([v \in DOMAIN nm |->
            VarClauses(e.ds, m.nv, Range(e.drop), nm[v], Concat([i \in 1..n |-> xs[i].var[v][2]]),
                       <<"time", "z", "y", "x">>, <<n, xs[1].size[3], xs[1].size[2], xs[1].size[1]>>)]))

(* names: what the predicate, the plugin and the opening function say *)
StepNames(e) ==
  Res(fs, << <<"HARNESS", Len(e.names) > 0 /\ Len(e.claim) = Len(e.names)>>,
             <<"name.claimed", \A i \in DOMAIN e.names : e.claim[i] = FieldName(e.names[i])>>,
             <<"plugin.claims", \A i \in DOMAIN e.names : e.plugin[i] = FieldName(e.names[i])>>,
             <<"other.refused", \A i \in DOMAIN e.names : (e.outcome[i] = "NotImplementedError") = ~FieldName(e.names[i])>>,
             <<"files.unchanged", e.chgf = <<>> >> >>)

(* the contents of a field file under a name *)
StepNamed(e) ==
  Res(fs, << <<"name.opens", FieldName(e.fn) = (e.st = "ok")>>,
             <<"other.refused", FieldName(e.fn) \/ e.how # "pymech" \/ e.exc = "NotImplementedError">> >> \o Still(e))

Step(e) == CASE e.op = "put" -> StepPut(e) [] e.op = "open" -> StepOpen(e) [] e.op = "many" -> StepMany(e)
             [] e.op = "names" -> StepNames(e) [] e.op = "named" -> StepNamed(e)

Init == tid \in 1..Len(Data.traces) /\ l = 1 /\ fs = <<>>
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E r \in {Step(e)} : \E bad \in {Failing(r.cl)} :
       /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1 /\ fs' = r.fs
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1 /\ fs' = fs
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l, fs>>
View == <<tid, l>>
===============================================================================
