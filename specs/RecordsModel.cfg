CONSTANTS
N = 3
Keys = {0, 1, 2000000001}
SPECIFICATION Spec
INVARIANTS Judged StableIsSorted Idempotent Sortedness Divided Composed NoEdges
CHECK_DEADLOCK FALSE
