SPECIFICATION Spec
CONSTANTS Tab <- NoTab
          Grids <- Grid221
          MaxFiles = 2
          Guard = TRUE
          Turns = {"none", "x", "y", "z", "swap"}
INVARIANTS Placed AtItsCoordinates SameWhateverOrder StackedInOrder
CHECK_DEADLOCK FALSE
