CONSTANTS Names = {"a", "b", "c", "d"} Forms = {"d"} Opts <- OneOpt MaxArgs = 2 Big = TRUE
SPECIFICATION Spec
INVARIANTS Progress NotStarved DropsAgree TargetsKept OnlyNeeded ExistingWin HasValue Colours Dominates Idempotent Monotone
CHECK_DEADLOCK FALSE
