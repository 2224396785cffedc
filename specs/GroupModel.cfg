CONSTANTS
MaxLen = 4
Values = {0, 1, 2}
MaxEdges = 3
SPECIFICATION Spec
INVARIANTS Values1 Bins1 Merging
CHECK_DEADLOCK FALSE
