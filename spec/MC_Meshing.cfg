SPECIFICATION Spec
CONSTANT MAXT = 5
INVARIANTS IsConforming FollowsDrawing CoversAll OneLabelPerArea LinearExact Sections LapIs
CHECK_DEADLOCK FALSE
