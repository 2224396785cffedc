CONSTANTS Threads = {t1, t2} Labels = {"a", "b"} MaxOps = 2 RECHECK = TRUE
SPECIFICATION Spec
INVARIANTS Interned Exclusion NoDeadlock
PROPERTIES Refines Progress
CHECK_DEADLOCK FALSE
