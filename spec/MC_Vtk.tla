-------------------------------- MODULE MC_Vtk --------------------------------
(* The grid of an unstructured data set, made cell by cell. For every number of points per
   direction up to MaxN, with and without downsampling:
   every sub-block of points gets one cell, whose corners are neighbours in the order that the
   toolkit asks for; the cells of an element fill it without overlap; no point is left over.   *)
EXTENDS Vtk
CONSTANTS MaxN, MaxE
VARIABLES lr1, down, made

NoTab == [R32 |-> <<>>, zero |-> 0]
c == Counts(lr1, down)
np == c[1] * c[2] * c[3]
nb == Len(SubBlocks(c))
ElemOf(v) == v \div np
(* indices of a point in its element's grid *)
At(v) == LET p == v % np IN <<p % c[1], (p \div c[1]) % c[2], p \div (c[1] * c[2])>>

Init == /\ \E nx, ny \in 2..MaxN, nz \in 1..MaxN : lr1 = <<nx, ny, nz>>
        /\ down \in BOOLEAN /\ made = <<>>
Next == /\ Len(made) < MaxE * nb
        /\ made' = Append(made, CellAt(c, (Len(made) \div nb) + 1, SubBlocks(c)[(Len(made) % nb) + 1]))
        /\ UNCHANGED <<lr1, down>>
Spec == Init /\ [][Next]_<<lr1, down, made>>

Last == made[Len(made)]
Diff(a, b) == [d \in 1..3 |-> At(b)[d] - At(a)[d]]
(* around each side counterclockwise seen from above, the upper side over the lower one *)
RightOrder ==
  made # <<>> =>
    LET q == Last IN
    /\ \A i \in DOMAIN q : ElemOf(q[i]) = ElemOf(q[1])
    /\ Diff(q[1], q[2]) = <<1, 0, 0>> /\ Diff(q[2], q[3]) = <<0, 1, 0>>
    /\ Diff(q[3], q[4]) = <<-1, 0, 0>> /\ Diff(q[4], q[1]) = <<0, -1, 0>>
    /\ Len(q) = 8 => \A i \in 1..4 : Diff(q[i], q[i + 4]) = <<0, 0, 1>>
    /\ (Len(q) = 8) = (lr1[3] > 1)
OncePerBlock == \A i \in 1..(Len(made) - 1) : made[i][1] # made[Len(made)][1]
(* Places: strictly increasing places of the arrays, so no point is taken twice; downsampling keeps corners *)
PlacesLaw ==
  LET p == Places(lr1, down) IN
  /\ Len(p) = np
  /\ \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
  /\ p[1] = 1 /\ p[Len(p)] = NPts(lr1)
  /\ ~down => p = [i \in 1..NPts(lr1) |-> i]
AllUsed ==
  Len(made) = MaxE * nb =>
    UNION {Range(made[i]) : i \in DOMAIN made} = 0..(MaxE * np - 1)
===============================================================================
