------------------------------ MODULE MC_Names ------------------------------
(* Names of field files, character by character: a recogniser that remembers how much of an ending
   it has seen accepts exactly the names that FieldName describes.                              *)
EXTENDS Dataset
CONSTANTS MaxLen
VARIABLES text, seen

NoTab == [R32 |-> <<>>, zero |-> 0]
Letters == {".", "f", "l", "d", "7"}
(* 0: nothing, 1: ".", 2: ".f", 3: ".fl", 4: ".fld", 5..9: ".f" and one to five digits *)
Follow(q, c) ==
  CASE c = "." -> 1
    [] c = "f" /\ q = 1 -> 2
    [] c = "l" /\ q = 2 -> 3
    [] c = "d" /\ q = 3 -> 4
    [] c = "7" /\ q = 2 -> 5
    [] c = "7" /\ q \in 5..8 -> q + 1
    [] OTHER -> 0
Init == text = "" /\ seen = 0
Next == Len(text) < MaxLen /\ \E c \in Letters : text' = text \o c /\ seen' = Follow(seen, c)
Spec == Init /\ [][Next]_<<text, seen>>

Recognised == (seen \in {4, 9}) = FieldName(text)
NothingAfterTheEnding == FieldName(text) => \A c \in Letters : ~FieldName(text \o c)
===============================================================================
