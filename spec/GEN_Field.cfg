SPECIFICATION Spec

CONSTANTS
  Tab <- MCTab
  Regs = {"a", "b"}
  Files = {"f", "g"}
  MaxOps = 9
  Variants = {1, 2, 3, 4, 5}
INVARIANTS InvWellFormed Emit
CHECK_DEADLOCK FALSE
