SPECIFICATION Spec
CONSTANTS
  N = 2
  K = 4
INVARIANTS CrossingIsWinding OrientationFree WindingIsOrientation OutlineIsDistanceZero Symmetric MeetIsCommonPoint SelfContained AreaOfTriangles SmallestCircle
CHECK_DEADLOCK FALSE
