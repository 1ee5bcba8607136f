SPECIFICATION Spec
VIEW View
CONSTANTS
  Tab <- MCTabFull
  Regs = {"a"}
  Files = {"f"}
  MaxOps = 3
  Shapes <- MCShapes
INVARIANTS InvWellFormed InvFile InvRe2
CHECK_DEADLOCK FALSE
