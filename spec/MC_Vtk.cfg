SPECIFICATION Spec
CONSTANTS Tab <- NoTab
          MaxN = 4
          MaxE = 2
INVARIANTS RightOrder OncePerBlock PlacesLaw AllUsed
CHECK_DEADLOCK FALSE
