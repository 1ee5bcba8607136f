---------------------------- MODULE Trace_Grading ----------------------------
(* Judges recorded computations of the ratio of a graded row of cells.
   e.a, e.b: first length and total length (digits), e.n: number of cells, e.x: the ratio returned
   (digits, rounded down), e.within: how near the ratio has to be.                             *)
EXTENDS Decimal, Json, IOUtils
VARIABLES tid, l

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Trace(i) == Data.traces[i].ev
IsNumber(d) == Len(d) = Total /\ \A i \in 1..Total : d[i] \in 0..(Base - 1)

Step(e) ==
  << <<"HARNESS", IsNumber(e.a) /\ IsNumber(e.b) /\ IsNumber(e.within) /\ e.n >= 2 /\ Leq(Add(e.a, Ulp), e.b)>>,
     <<"must.succeed", e.st = "ok">> >>
  \o IF e.st # "ok" THEN <<>> ELSE
     << <<"a.positive.number", IsNumber(e.x) /\ e.x # Zero>>,
        <<"fills.the.length", IsNumber(e.x) /\ RatioBetween(Less(e.x, e.within), Add(Add(e.x, Ulp), e.within), e.a, e.b, e.n)>> >>

Init == tid \in 1..Len(Data.traces) /\ l = 1
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E bad \in {Failing(Step(e))} :
       /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1
               /\ PrintT((IF bad = "HARNESS" THEN "HARNESS|" ELSE "BAD|") \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l>>
View == <<tid, l>>
===============================================================================
