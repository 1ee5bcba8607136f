SPECIFICATION Spec
VIEW View
CONSTANTS
  Regs = {"a", "b"}
  MaxOps = 1
  MaxEl = 8
  Sizes <- MCSizes
  Walls <- MCWalls
INVARIANTS InvLaws
CHECK_DEADLOCK FALSE
