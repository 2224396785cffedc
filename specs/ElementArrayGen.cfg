CONSTANTS Names = {"p", "q"} Vals = {1, 2} MaxLen = 2 Dflt = 0
INIT GInit
NEXT GNext
VIEW View
ACTION_CONSTRAINT EmitProg
CHECK_DEADLOCK FALSE
