SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  OBJ = {a, b, c}
  DEPTH = 6
  LAZY = FALSE
INVARIANTS Isolated Tree Alike
