SPECIFICATION Spec
CONSTANTS
  NR = 3
  NF = 3
INVARIANTS RowsSumToZero BlocksApart AlwaysConstrained Physics NearestIsNearest
CHECK_DEADLOCK FALSE
