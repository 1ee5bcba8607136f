SPECIFICATION Spec
VIEW View
CONSTANTS
  Regs = {"a", "b"}
  MaxOps = 2
  MaxEl = 8
  Sizes <- MCSizes
  Walls <- MCWalls
INVARIANTS InvCheck InvTouch
CHECK_DEADLOCK FALSE
