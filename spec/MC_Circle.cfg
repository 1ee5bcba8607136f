SPECIFICATION Spec
CONSTANTS
  MaxNs = 3
  MaxNo = 3
INVARIANTS InvBook InvDisc InvArea
CHECK_DEADLOCK FALSE
