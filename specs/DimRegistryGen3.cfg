CONSTANTS Threads = {"t1", "t2", "t3"} Labels = {"a", "b"} MaxOps = 1 RECHECK = TRUE
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
