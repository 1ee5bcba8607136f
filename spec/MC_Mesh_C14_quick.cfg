SPECIFICATION Spec
VIEW View
CONSTANTS
  Regs = {"a", "b"}
  MaxOps = 1
  MaxEl = 8
  Sizes <- QSizes
  Walls <- QWalls
INVARIANTS InvLaws InvShift
CHECK_DEADLOCK FALSE
