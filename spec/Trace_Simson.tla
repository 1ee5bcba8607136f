----------------------------- MODULE Trace_Simson -----------------------------
(* Judges readings of SIMSON files made by the driver, possibly cut: each event carries the content, the
   words written (checked against the layout), the number of bytes left, and what was read.             *)
EXTENDS Simson, Json, IOUtils
VARIABLES tid, l

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Trace(i) == Data.traces[i].ev

Outcome(e, file) ==
  IF e.cut >= 0 /\ e.cut < NeededBytes(file) THEN << <<"must.be.refused", e.st = "err">> >>
  ELSE << <<"must.succeed", e.st = "ok">> >>

StepPlane(e) ==
  LET file == TLCEval(PlaneFile(e.nn, e.x, e.d)) IN
  << <<"HARNESS", e.words = file>> >> \o Outcome(e, file) \o
  IF e.st # "ok" THEN <<>> ELSE
  << <<"dimensions", e.rnd = Len(e.nn) /\ e.rnn = e.nn>>,
     <<"shape", e.dshape = e.nn /\ \A j \in DOMAIN e.xshape : e.xshape[j] = e.nn>>,
     <<"coordinates", e.rx = e.x>>, <<"data", e.rd = e.d>>, <<"file.unchanged", e.same>> >>

StepVelocity(e) ==
  LET h == e.h file == TLCEval(DnsFile(h, e.c)) n == h.n ns == Len(h.pr) nd == 2 + (IF n[3] > 1 THEN 1 ELSE 0)
      len == n[1] * n[2] * n[3]
      X(p) == ((p - 1) % n[1]) + 1
      Y(p) == (((p - 1) \div n[1]) % n[2]) + 1
      Z(p) == ((p - 1) \div (n[1] * n[2])) + 1
  IN
  << <<"HARNESS", e.words = file /\ KnownType(h.fl)>> >> \o Outcome(e, file) \o
  IF e.st # "ok" THEN <<>> ELSE
  << <<"header", e.lr1 = n /\ e.nel = 1 /\ e.elems = 1 /\ e.ndim = nd /\ e.wdsz = 8>>,
     <<"variables", e.nv = <<nd, nd, 0, 0, ns>> >>,
     <<"time", e.time = h.t>>, <<"byte.order", e.rend = e.endian>>,
     <<"size", e.gx # <<>> /\ Len(e.gx) = len /\ Len(e.gy) = len /\ Len(e.gz) = len /\ Len(e.vel) = 3 /\ Len(e.scal) = ns>> >> \o
  IF ~(e.gx # <<>> /\ Len(e.gx) = len /\ Len(e.gy) = len /\ Len(e.gz) = len /\ Len(e.vel) = 3 /\ Len(e.scal) = ns) THEN <<>> ELSE
  << <<"grid.x", \A p \in 1..len : e.gx[p] = GridX(h, X(p))>>,
     <<"grid.z", \A p \in 1..len : e.gz[p] = GridZ(h, Z(p))>>,
     <<"grid.y", /\ \A p \in 1..len : e.gy[p] = e.gy[1 + (Y(p) - 1) * n[1]]
                 /\ e.ytop = Height(h)
                 /\ Cosines([y \in 1..n[2] |-> e.gy[1 + (y - 1) * n[1]]])>>,
     <<"velocity", \A v \in 1..3 : e.vel[v] = [y \in 1..n[2] |-> Mean(h, e.c, v, y)]>>,
     <<"scalars", \A v \in 1..ns : e.scal[v] = [y \in 1..n[2] |-> Mean(h, e.c, 3 + v, y)]>>,
     <<"uniform", e.even>>,
     <<"file.unchanged", e.same>> >>

Step(e) == IF e.op = "plane" THEN StepPlane(e) ELSE StepVelocity(e)

Init == tid \in 1..Len(Data.traces) /\ l = 1
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E bad \in {Failing(Step(e))} :
       /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l>>
View == <<tid, l>>
===============================================================================
