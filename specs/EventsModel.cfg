CONSTANTS
MaxEvents = 2
Coord = {0, 1}
MaxEdges = 3
SPECIFICATION Spec
INVARIANTS InPlace Judged TwoSteps Joined Rebinned
CHECK_DEADLOCK FALSE
