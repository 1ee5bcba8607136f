SPECIFICATION Spec
CONSTANTS Cols = 3
          Rows = 1
          NzMax = 8
INVARIANTS LayersLaw Fills
CHECK_DEADLOCK FALSE
