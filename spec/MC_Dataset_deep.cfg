SPECIFICATION Spec
CONSTANTS Tab <- NoTab
          Grids <- Grid222
          MaxFiles = 2
          Guard = TRUE
          Turns = {"none"}
INVARIANTS Placed AtItsCoordinates SameWhateverOrder StackedInOrder
CHECK_DEADLOCK FALSE
