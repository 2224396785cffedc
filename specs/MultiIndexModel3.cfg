CONSTANTS Ext = {1, 2} Str = {0, 1, 2, 4} MaxDim = 3
SPECIFICATION Spec
INVARIANTS Correct EndDetected InnerRun
CHECK_DEADLOCK FALSE
