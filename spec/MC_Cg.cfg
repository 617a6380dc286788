SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Finite ResidualTrue Descends InNSteps DoneSolves
PROPERTY Terminates
CHECK_DEADLOCK FALSE
