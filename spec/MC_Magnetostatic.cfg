SPECIFICATION Spec
CONSTANTS
  NM = 2
INVARIANTS Glued NoNetFlow MagnetsBalance Constrained GroundSeen Physics
CHECK_DEADLOCK FALSE
