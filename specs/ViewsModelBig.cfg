SPECIFICATION Spec
CONSTANTS MaxViews = 2 MaxOps = 2 Emitting = FALSE
INVARIANTS HeapInv Frame
CHECK_DEADLOCK FALSE
