SPECIFICATION Spec
CONSTANTS Cols = 4
          Rows = 2
          NzMax = 8
INVARIANTS LayersLaw Fills
CHECK_DEADLOCK FALSE
