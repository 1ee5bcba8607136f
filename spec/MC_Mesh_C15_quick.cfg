SPECIFICATION Spec
VIEW View
CONSTANTS
  Regs = {"a", "b"}
  MaxOps = 1
  MaxEl = 8
  Sizes <- QSizes
  Walls <- QWalls
INVARIANTS InvExtrude
CHECK_DEADLOCK FALSE
