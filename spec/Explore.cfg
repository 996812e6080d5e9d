INIT Init
NEXT Next
PROPERTY Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds <- MCSeeds
  Menu <- MCMenu
  Holds <- MCHolds
