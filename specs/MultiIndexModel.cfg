CONSTANTS Ext = {1, 2, 3} Str = {0, 1, 2, 3} MaxDim = 2
SPECIFICATION Spec
INVARIANTS Correct EndDetected InnerRun
CHECK_DEADLOCK FALSE
