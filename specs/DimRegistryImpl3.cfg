CONSTANTS Threads = {t1, t2, t3} Labels = {"a", "b"} MaxOps = 1 RECHECK = TRUE
SPECIFICATION Spec
INVARIANTS Interned Exclusion NoDeadlock
PROPERTIES Refines Progress
CHECK_DEADLOCK FALSE
