SPECIFICATION Spec
CONSTANTS
  Lens = {0, 3, 7, 8, 11, 16, 20, 24, 29, 32, 38, 40, 43}
  Bug = ""
INVARIANTS DamageLocal ChangeLocal ResidueAlone RoundTrip Short
CHECK_DEADLOCK FALSE
