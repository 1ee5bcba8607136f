SPECIFICATION Spec
VIEW View
CONSTANTS
  Tab <- MCTabFull
  Regs = {"a"}
  Files = {"f"}
  MaxOps = 2
  Shapes <- MCShapes
INVARIANTS InvWellFormed InvFile InvRea InvRe2
CHECK_DEADLOCK FALSE
