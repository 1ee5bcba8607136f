SPECIFICATION Spec
VIEW View
CONSTANTS Base = 10000
          Frac = 5
          Total = 9
CHECK_DEADLOCK FALSE
