----------------------------- MODULE Trace_Circle -----------------------------
(* Judges discs generated by the library: each event is one call of gen_circle. The coordinates are
   rounded to 1/10000 of the radius (in `fine` to a 500 millionth); vertices closer than a billionth have one number.   *)
EXTENDS Circle, Json, IOUtils
VARIABLES tid, l

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Trace(i) == Data.traces[i].ev
R == 10000

(* ---- where the layers lie ---- *)
(* eta[j + 1], gam[j + 1]: values of the two functions of the caller at layer j (eta = <<>> for the
   default spacing), in 1/10000. Along the diagonals layer j is at the fraction eta of the way from
   the corner of the square to the circle; along the middle of a side, the way is a mixture of the one
   to the circle and the one to the largest square in it.                                           *)
RECURSIVE Ascending(_)
Ascending(V) == IF V = {} THEN <<>> ELSE <<SetMin(V)>> \o Ascending(V \ {SetMin(V)})
Within(x, y, tol) == Abs(x - y) <= tol
Half(S) == (S * 5000) \div 7071                            \* half a side of the centre square
OnDiagonal(at, X) == \E p \in DOMAIN at : at[p][1] > 0 /\ Within(at[p][1], at[p][2], 1) /\ Within((at[p][1] * 7071) \div 5000, X, 4)
OnAxis(at, X) == \E p \in DOMAIN at : Within(at[p][2], 0, 1) /\ Within(at[p][1], X, 4)
Diagonal(S, eta) == S + (eta * (R - S)) \div R
Axis(S, eta, gam) == LET c == Half(S) way == (gam * (R - c) + (R - gam) * (7071 - c)) \div R IN c + (eta * way) \div R
(* distances from the centre on the positive diagonal, outside of the square, in order *)
Rays(at, S) == LET d == {(at[p][1] * 7071) \div 5000 : p \in {p \in DOMAIN at : at[p][1] > 0 /\ Within(at[p][1], at[p][2], 1)}}
                   x == {v \in d : v >= S - 4} IN Ascending(x)
Layers(e) ==
  LET at == e.at S == e.s
      onrim(p) == Abs(Sq(at[p][1]) + Sq(at[p][2]) - R * R) <= 2 * R
      alone == TLCEval({x \in Sides(e.post) : \A p \in EdgeV(e.post, x[1], x[2]) : onrim(p)})
      one == CHOOSE x \in alone : TRUE
      chord(x) == LET s == EdgeV(e.post, x[1], x[2]) a == SetMin(s) b == SetMax(s) IN
                  Sq(at[a][1] - at[b][1]) + Sq(at[a][2] - at[b][2])
      ray == Rays(at, S)
      gap == [j \in 1..(Len(ray) - 1) |-> ray[j + 1] - ray[j]]
      c == Half(S)
      cell == (2 * c) \div e.ns
      room == e.no > 1 /\ cell * 100 < 98 * (R - c)
  IN << <<"rim.even", \A x \in alone : Within(chord(x), chord(one), 100000 \div e.ns)>>,
        <<"layers.number", Len(ray) <= e.no + 1>>,
        <<"layers.diagonal", \A j \in DOMAIN e.eta : OnDiagonal(at, Diagonal(S, e.eta[j]))>>,
        <<"layers.axis", e.ns % 2 = 0 => \A j \in DOMAIN e.eta : OnAxis(at, Axis(S, e.eta[j], e.gam[j]))>>,
        (* by default: a geometric progression that starts with the size of the cells of the square *)
        <<"layers.geometric", (e.eta = <<>> /\ Len(gap) = e.no) => \A j \in 1..(Len(gap) - 2) :
             Within(gap[j] * gap[j + 2], gap[j + 1] * gap[j + 1], 6 * (gap[j] + gap[j + 1] + gap[j + 2]) + 10)>>,
        <<"layers.uniform", (e.eta = <<>> /\ ~room /\ cell * 100 > 102 * (R - c)) => \A j \in DOMAIN gap : Within(gap[j], gap[1], 4)>>,
        <<"layers.first", (e.eta = <<>> /\ room /\ e.ns % 2 = 0) => OnAxis(at, c + cell)>> >>

StepCircle(e) ==
  LET m == e.post at == e.at S == e.s IN
  << <<"must.succeed", e.st = "ok">>, <<"arguments.unchanged", e.same>>, <<"nothing.shared", e.shared = <<>> >>,
     <<"others.unchanged", e.chg = <<>> >> >>
  \o IF e.st # "ok" THEN <<>> ELSE
  << <<"meta", m.ndim = 2 /\ m.lr1 = <<2, 2, 1>> /\ m.nv = e.nv /\ m.nbc = Len(e.bc)>>,
     <<"book", BookCounts(m) /\ BookMap(m) /\ BookCurv(m) /\ BookFields(m) /\ BookOwn(m) /\ LinksOk(m)>>,
     <<"flat", \A i \in DOMAIN m.el : m.el[i].flat>> >>
  \o IF ~(BookCounts(m) /\ BookFields(m)) THEN <<>> ELSE
     DiscClauses(m, at, e.fine, LAMBDA i : m.el[i].loc, e.ns, e.no, e.bc, e.ib, R,
                 LAMBDA p : p[1] > 0 /\ Abs(p[1] - p[2]) <= 1 /\ Abs(2 * p[1] * p[1] - S * S) <= 6 * S,
                 3, LAMBDA p : Abs(p[1] * p[1] + p[2] * p[2] - R * R) <= 2 * R, TRUE)
     \o Layers(e)
     \o << <<"covers.the.disc", LET a == SumTo([i \in DOMAIN m.el |-> Area2(at, m.el[i])], m.nel) IN
                                  a > 4 * R * R - 100 * R /\ a <= 628318530 + 100 * R>>,
           <<"centre.square", Cardinality({i \in DOMAIN m.el : \A q \in 1..4 : \A d \in {1, 2} :
                2 * Sq(at[m.el[i].v[q]][d]) <= S * S + 6 * S}) = e.ns * e.ns>> >>

Init == tid \in 1..Len(Data.traces) /\ l = 1
Next ==
  /\ l <= Len(Trace(tid))
  /\ \E e \in {Trace(tid)[l]} : \E bad \in {Failing(StepCircle(e))} :
       /\ tid' = tid
       /\ IF bad = ""
          THEN /\ l' = l + 1
               /\ (l = Len(Trace(tid)) => PrintT("DONE|" \o ToString(tid) \o "|" \o ToString(l)))
          ELSE /\ l' = Len(Trace(tid)) + 1
               /\ PrintT("BAD|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o bad)
Spec == Init /\ [][Next]_<<tid, l>>
View == <<tid, l>>
===============================================================================
