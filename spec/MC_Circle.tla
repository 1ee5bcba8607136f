------------------------------ MODULE MC_Circle ------------------------------
(* A disc in the maximum norm assembled as the library does it: a square block and four trapezoidal
   blocks, each a quarter turn of the previous one, glued by the merge operation of Mesh. Checks, for
   every size, that gluing by merging gives a conforming, fully joined disc. *)
EXTENDS Circle
CONSTANTS MaxNs, MaxNo
VARIABLES ns, no, nbc, ib, mesh, turns

Block(ni, nj, P(_, _), out) ==
  LET num(i, j) == 1 + i + ni * j
      I(n) == (n - 1) % ni
      J(n) == (n - 1) \div ni
      side == IF ib THEN "con" ELSE ""
      link(n, k, q, f) == IF ib THEN <<"E", n, k, q, f, 0, 0, 0>> ELSE E0
      cell(n, k) ==
        CASE k = 1 -> IF J(n) > 0 THEN link(n, 1, num(I(n), J(n) - 1), 3) ELSE <<side, 0, 0, 0, 0, 0, 0, 0>>
          [] k = 2 -> IF I(n) < ni - 1 THEN link(n, 2, num(I(n) + 1, J(n)), 4)
                      ELSE <<IF out THEN "W" ELSE side, 0, 0, 0, 0, 0, 0, 0>>
          [] k = 3 -> IF J(n) < nj - 1 THEN link(n, 3, num(I(n), J(n) + 1), 1) ELSE <<side, 0, 0, 0, 0, 0, 0, 0>>
          [] k = 4 -> IF I(n) > 0 THEN link(n, 4, num(I(n) - 1, J(n)), 2) ELSE <<side, 0, 0, 0, 0, 0, 0, 0>>
          [] OTHER -> E0
      corner(n, q) == P(I(n) + ((q - 1) % 2), J(n) + ((q - 1) \div 2))
  IN [ndim |-> 2, nel |-> ni * nj, lr1 |-> <<2, 2, 1>>, nv |-> <<2, 2, 1, 0, 0>>, nbc |-> nbc,
      ncurv |-> IF out THEN nj ELSE 0, elmap |-> [n \in 1..ni * nj |-> n],
      el |-> [n \in 1..ni * nj |->
        [pos |-> <<[q \in 1..4 |-> corner(n, q)[1]], [q \in 1..4 |-> corner(n, q)[2]], <<0, 0, 0, 0>>>>,
         cv |-> [j \in 1..12 |-> IF out /\ j = 2 /\ I(n) = ni - 1 THEN <<"C", 1, 0, 0, 0, 0>> ELSE C0],
         bc |-> [b \in 1..nbc |-> [k \in 1..6 |-> cell(n, k)]]]]]
(* half sides: of the square 12, of the disc 36; everything divides for sizes up to 4 *)
Half == 12
Out == 24
Square == Block(ns, ns, LAMBDA i, j : <<(24 * i) \div ns - 12, (24 * j) \div ns - 12>>, FALSE)
O == Block(no, ns, LAMBDA i, j : LET x == Half + (Out * i) \div no IN <<x, (2 * x * j) \div ns - x>>, TRUE)
RECURSIVE Quarter(_, _)
Quarter(m, n) == IF n = 0 THEN m ELSE Quarter(Rotate(m, 0, 1, 1, 0, 0), n - 1)

Init == /\ ns \in 1..MaxNs /\ no \in 1..MaxNo /\ nbc \in 1..2 /\ ib \in BOOLEAN
        /\ turns = 0 /\ mesh = Square
Next == /\ turns < 4 /\ turns' = turns + 1
        /\ mesh' = Merge(mesh, Quarter(O, turns), 1, 100, TRUE, ~ib).m
        /\ UNCHANGED <<ns, no, nbc, ib>>
Spec == Init /\ [][Next]_<<ns, no, nbc, ib, mesh, turns>>

Code(x, y) == (x + 40) * 100 + y + 40
Numbered == [mesh EXCEPT !.el = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cv = [j \in 1..12 |-> IF @[j][1] = "" THEN <<"", 0>> ELSE <<"C", 1>>]]
               @@ [v |-> [q \in 1..4 |-> Code(@[i].pos[1][q], @[i].pos[2][q])]]]]
At == LET ids == UNION {Range(Numbered.el[i].v) : i \in 1..mesh.nel} IN [p \in ids |-> <<(p \div 100) - 40, (p % 100) - 40>>]
InvBook == BookCounts(mesh) /\ BookMap(mesh) /\ BookCurv(mesh) /\ BookFields(mesh) /\ BookOwn(mesh) /\ LinksOk(mesh)
InvDisc == turns = 4 =>
  \A c \in Range(DiscClauses(Numbered, At, At, LAMBDA i : [q \in 1..4 |-> At[Numbered.el[i].v[q]]], ns, no, [b \in 1..nbc |-> "W"], ib, 1,
      LAMBDA p : p = <<12, 12>>, 0, LAMBDA p : Max2(Abs(p[1]), Abs(p[2])) = 36, TRUE)) : c[2]
InvArea == turns = 4 => SumTo([i \in 1..mesh.nel |-> Area2(At, Numbered.el[i])], mesh.nel) = 2 * 72 * 72
==============================================================================
