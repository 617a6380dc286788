SPECIFICATION Spec
CONSTANTS
  NR = 2
  NF = 2
INVARIANTS RowsSumToZero BlocksApart AlwaysConstrained Physics NearestIsNearest
CHECK_DEADLOCK FALSE
