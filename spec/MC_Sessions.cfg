SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  OBJ = {a, b, c}
  DEPTH = 5
  LAZY = FALSE
INVARIANTS Isolated Tree Alike
