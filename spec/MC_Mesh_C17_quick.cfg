SPECIFICATION Spec
VIEW View
CONSTANTS
  Regs = {"a", "b"}
  MaxOps = 0
  MaxEl = 8
  Sizes <- MCSizes
  Walls <- QWalls
INVARIANTS InvBox InvCheck
CHECK_DEADLOCK FALSE
