SPECIFICATION Spec
CONSTANTS
  Regs = {"a", "b"}
  MaxOps = 6
  MaxEl = 8
  Sizes <- MCSizes
  Walls <- GenWalls
INVARIANTS Emit
CHECK_DEADLOCK FALSE
