SPECIFICATION Spec
CONSTANTS Tab <- NoTab
          MaxN = 6
          MaxE = 3
INVARIANTS RightOrder OncePerBlock PlacesLaw AllUsed
CHECK_DEADLOCK FALSE
