SPECIFICATION Spec
CONSTANTS Tab <- NoTab
          MaxLen = 8
INVARIANTS Recognised NothingAfterTheEnding
CHECK_DEADLOCK FALSE
