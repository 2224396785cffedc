CONSTANTS L = {"x", "y", "z"} N = {0, 2, 3}
INIT GInit
NEXT GNext
VIEW View
ACTION_CONSTRAINT EmitProg
CHECK_DEADLOCK FALSE
