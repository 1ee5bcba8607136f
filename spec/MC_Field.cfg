SPECIFICATION Spec
VIEW View
CONSTANTS
  Tab <- MCTab
  Regs = {"a", "b"}
  Files = {"f", "g"}
  MaxOps = 4
  Variants = {1, 2, 3, 4, 5}
INVARIANTS InvWellFormed InvContent InvRoundTrip InvLayout InvSkip
CHECK_DEADLOCK FALSE
