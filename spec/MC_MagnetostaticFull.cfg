SPECIFICATION Spec
CONSTANTS
  NM = 4
INVARIANTS Glued NoNetFlow MagnetsBalance Constrained GroundSeen Physics
CHECK_DEADLOCK FALSE
