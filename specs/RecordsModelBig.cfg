CONSTANTS
N = 4
Keys = {0, 1, 2, 2000000001}
SPECIFICATION Spec
INVARIANTS Judged StableIsSorted Idempotent Sortedness Divided Composed NoEdges
CHECK_DEADLOCK FALSE
