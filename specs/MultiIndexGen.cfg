CONSTANTS Ext = {1, 2, 3} Str = {0, 1, 2, 3} MaxDim = 2
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
