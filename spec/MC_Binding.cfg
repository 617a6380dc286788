SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  DEPTH = 4
  CARELESS = FALSE
INVARIANTS Same Whole Ready
