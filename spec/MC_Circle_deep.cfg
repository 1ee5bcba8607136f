SPECIFICATION Spec
CONSTANTS
  MaxNs = 4
  MaxNo = 4
INVARIANTS InvBook InvDisc InvArea
CHECK_DEADLOCK FALSE
