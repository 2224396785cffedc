CONSTANTS Num = {0, 1, 2, 3, 4, 5, 6, 7} Den = {1, 2, 4} Var = {0, 1, 2, 3}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Commute SubIsAddNeg DivIsMulInv VarNonNeg ExactStaysExact PowIsScaledMul PowInverse Associative
