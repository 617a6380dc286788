SPECIFICATION Spec
CONSTANT M = 3
INVARIANTS AlwaysConstrained Decoupled OrderFree
PROPERTY Isolated
CHECK_DEADLOCK FALSE
