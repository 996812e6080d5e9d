INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANTS
  Seeds <- MCSeeds
  Theorem <- MCTheorem
  Script <- MCScript
