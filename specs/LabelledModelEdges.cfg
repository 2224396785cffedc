CONSTANTS
Extent = 2
Coords = {"point", "edges", "none"}
MaskKinds = {"scalar"}
WithY = FALSE
SPECIFICATION Spec
INVARIANTS Symmetric Carries Associative InPlace Partly Judged
CHECK_DEADLOCK FALSE
