SPECIFICATION Spec
CONSTANT MAXT = 6
INVARIANTS IsConforming FollowsDrawing CoversAll OneLabelPerArea LinearExact Sections LapIs
CHECK_DEADLOCK FALSE
