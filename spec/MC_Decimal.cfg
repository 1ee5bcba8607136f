SPECIFICATION Spec
CONSTANTS Base = 3
          Frac = 2
          Total = 6
          MaxX = 60
          MaxLen = 4
INVARIANTS Between SameAsRecursion Monotone Found Laws
CHECK_DEADLOCK FALSE
