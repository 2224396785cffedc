SPECIFICATION Spec
CONSTANTS MaxLen = 3
Gen = FALSE
INVARIANTS Composed Assoc Undo KindOk
