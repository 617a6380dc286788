SPECIFICATION Spec
CONSTANTS
  N = 2
  DEPTH = 2
  FULL = FALSE
INVARIANTS OnePointPerPlace SidesPresent NothingElse Planar FitsOrClashes Mutual Idempotent
PROPERTY Monotone
CHECK_DEADLOCK FALSE
