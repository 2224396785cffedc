CONSTANTS Threads = {t1, t2} Labels = {"a", "b"} MaxOps = 2 RECHECK = FALSE
SPECIFICATION Spec
INVARIANTS Interned Exclusion NoDeadlock
CHECK_DEADLOCK FALSE
