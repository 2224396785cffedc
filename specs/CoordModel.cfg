CONSTANTS Names = {"a", "b", "c"} Forms = {"d", "e"} Opts <- AllOpts MaxArgs = 2 Big = FALSE
SPECIFICATION Spec
INVARIANTS Progress NotStarved DropsAgree TargetsKept OnlyNeeded ExistingWin HasValue Colours Dominates Idempotent Monotone
CHECK_DEADLOCK FALSE
