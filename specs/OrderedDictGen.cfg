CONSTANTS Keys = {"a", "b", "c"} Vals = {1, 2} Kinds = {"key"}
INIT GInit
NEXT GNext
VIEW View
ACTION_CONSTRAINT EmitProg
CHECK_DEADLOCK FALSE
