SPECIFICATION Spec
CONSTANTS MaxN = 2
          MaxV = 3
INVARIANTS CutReading
CHECK_DEADLOCK FALSE
