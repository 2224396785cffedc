CONSTANTS
MaxEvents = 2
Coord = {0, 1, 2}
MaxEdges = 3
SPECIFICATION Spec
INVARIANTS Judged Same OfBins Kept TwoSteps
CHECK_DEADLOCK FALSE
