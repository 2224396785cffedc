CONSTANTS Names = {"a", "b", "c"} Forms = {"d", "e", "de"} Opts <- OneOpt MaxArgs = 2 Big = FALSE
SPECIFICATION GenSpec
INVARIANT EmitProg
CHECK_DEADLOCK FALSE
