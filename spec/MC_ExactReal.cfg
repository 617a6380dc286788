SPECIFICATION Spec
CONSTANTS
  N = 12
  D = 8
INVARIANTS Arithmetic Order Single Sums Irrational Repeated SetSeq Powers
CHECK_DEADLOCK FALSE
