SPECIFICATION Spec
CONSTANTS MaxLen = 3
Gen = TRUE
INVARIANTS Composed Assoc Undo KindOk
