SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  DEPTH = 5
  CARELESS = FALSE
INVARIANTS Same Whole Ready
