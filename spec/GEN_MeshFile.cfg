SPECIFICATION GenSpec
CONSTANTS
  Tab <- MCTabFull
  Regs = {"a", "b"}
  Files = {"f", "g"}
  MaxOps = 10
  Shapes <- MCShapes
INVARIANTS InvWellFormed Emit
CHECK_DEADLOCK FALSE
