----------------------------- MODULE Uncertain -----------------------------
(* P06. Values with variances as exact rationals, and first-order propagation
   for uncorrelated operands.  An operand is [v |-> rational, e |-> rational];
   an exact operand has e = 0 and is a plain number in the implementation.    *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN -x ELSE x
Q(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == Gcd(AbsI(n), AbsI(d))
           IN <<s * (n \div g), AbsI(d) \div g>>
QAdd(p, q) == LET g == Gcd(p[2], q[2]) IN Q(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), p[2] * (q[2] \div g))
QNeg(p) == <<-p[1], p[2]>>
QMul(p, q) == LET a == Q(p[1], q[2])  b == Q(q[1], p[2]) IN <<a[1] * b[1], a[2] * b[2]>>
QInv(p) == Q(p[2], p[1])
QSq(p) == QMul(p, p)
QLt(p, q) == p[1] * q[2] < q[1] * p[2]
QI(n) == <<n, 1>>
RECURSIVE QPow(_, _)
QPow(p, n) == IF n = 0 THEN QI(1) ELSE IF n < 0 THEN QInv(QPow(p, -n)) ELSE QMul(p, QPow(p, n - 1))

U(v, e) == [v |-> v, e |-> e]
\* partial derivatives da, db of the operation give the variance da^2 ea + db^2 eb
Prop(v, da, ea, db, eb) == U(v, QAdd(QMul(QSq(da), ea), QMul(QSq(db), eb)))
Add(a, b) == Prop(QAdd(a.v, b.v), QI(1), a.e, QI(1), b.e)
Sub(a, b) == Prop(QAdd(a.v, QNeg(b.v)), QI(1), a.e, QI(-1), b.e)
Mul(a, b) == Prop(QMul(a.v, b.v), b.v, a.e, a.v, b.e)
Div(a, b) == Prop(QMul(a.v, QInv(b.v)), QInv(b.v), a.e, QNeg(QMul(a.v, QSq(QInv(b.v)))), b.e)
Apply(f, a, b) == CASE f = "add" -> Add(a, b) [] f = "sub" -> Sub(a, b) [] f = "mul" -> Mul(a, b) [] f = "div" -> Div(a, b)
Neg(a) == U(QNeg(a.v), a.e)
Abs(a) == U(<<AbsI(a.v[1]), a.v[2]>>, a.e)
Pow(a, n) == Prop(QPow(a.v, n), QMul(QI(n), QPow(a.v, n - 1)), a.e, QI(0), QI(0))
\* sqrt of the square of s
SqrtOfSquare(s, e) == U(s, QMul(QMul(<<1, 4>>, e), QInv(QSq(s))))
=============================================================================
