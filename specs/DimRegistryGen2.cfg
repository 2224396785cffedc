CONSTANTS Threads = {"t1", "t2"} Labels = {"a", "b"} MaxOps = 2 RECHECK = TRUE
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
