SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT ValuesRight
CHECK_DEADLOCK FALSE
