--------------------------- MODULE UncertainModel ---------------------------
(* Algebra of propagation checked exhaustively on a small grid, as a register
   machine: two registers are combined; laws are invariants.                 *)
EXTENDS Uncertain, FiniteSets
CONSTANTS Num, Den, Var
VARIABLES r, s
Vals == {Q(n - 3, d) : n \in Num, d \in Den}
Ops == {U(v, <<e, 1>>) : v \in Vals, e \in Var}
Init == r \in Ops /\ s \in Ops
Next == UNCHANGED <<r, s>>
Spec == Init /\ [][Next]_<<r, s>>
Commute == Add(r, s) = Add(s, r) /\ Mul(r, s) = Mul(s, r)
SubIsAddNeg == Sub(r, s) = Add(r, Neg(s))
DivIsMulInv == s.v[1] # 0 => Div(r, s) = Mul(r, Div(U(QI(1), QI(0)), s))
VarNonNeg == \A f \in {"add", "sub", "mul"} : Apply(f, r, s).e[1] >= 0
ExactStaysExact == (r.e[1] = 0 /\ s.e[1] = 0) => Apply("mul", r, s).e[1] = 0
PowIsScaledMul == Pow(r, 2).v = Mul(r, r).v /\ Pow(r, 2).e = QMul(QI(2), Mul(r, r).e)  \* fully correlated vs uncorrelated
PowInverse == r.v[1] # 0 => Pow(r, -1) = Div(U(QI(1), QI(0)), r)
Associative == Add(Add(r, s), r).v = Add(r, Add(s, r)).v /\ Mul(Mul(r, s), s).v = Mul(r, Mul(s, s)).v
=============================================================================
