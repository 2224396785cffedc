---------------------------- MODULE NumericTrace ----------------------------
EXTENDS Uncertain, TraceIO, BigInt
VARIABLE l
E == Trace[l]
\* inputs are quarter integers; outputs are recorded as round(4096 * x)
In(v, e) == U(Q(v, 4), Q(e, 4))
Grid == 4096
Same(out, q) == IF out = 2000000009 \/ AbsI(q[1]) \div q[2] > 350000 THEN out = 2000000009 /\ AbsI(q[1]) \div q[2] > 350000
  ELSE LET d == 2 * AbsI(out * q[2] - q[1] * Grid) IN d <= q[2] + (q[2] \div 100)
SameU(o, u) == Same(o[1], u.v) /\ Same(o[2], u.e)
PInf == 2000000002
NInf == -2000000002
NaNV == 2000000001
BinOk == LET a == In(E.a[1], E.a[2])  b == In(E.b[1], E.b[2]) IN
   IF E.f = "div" /\ b.v[1] = 0
   THEN /\ E.out[1] = IF a.v[1] = 0 THEN NaNV ELSE IF (a.v[1] > 0) = (E.bsign > 0) THEN PInf ELSE NInf
        /\ E.out = E.inplace
   ELSE SameU(E.out, Apply(E.f, a, b)) /\ E.inplace = E.out
UnOk == LET a == In(E.a[1], E.a[2]) IN
   CASE E.f = "neg" -> SameU(E.out, Neg(a))
     [] E.f = "abs" -> SameU(E.out, Abs(a))
     [] E.f = "sqrt" -> SameU(E.out, SqrtOfSquare(Q(E.root, 4), a.e))
     [] E.f = "pow" -> SameU(E.out, Pow(a, E.n))
     [] E.f = "exp0" -> SameU(E.out, U(QI(1), a.e))          \* at value 0
     [] E.f = "log1" -> SameU(E.out, U(QI(0), a.e))          \* at value 1
     [] E.f = "assign" -> SameU(E.out, a)                    \* assigning / converting keeps both
     [] E.f = "exact" -> SameU(E.out, U(a.v, QI(0)))         \* plain number assigned
CmpOk == LET a == Q(E.a[1], 4)  b == Q(E.b[1], 4) IN   \* variances ignored
   /\ E.lt = QLt(a, b) /\ E.gt = QLt(b, a) /\ E.eq = (a = b)
   /\ E.le = ~QLt(b, a) /\ E.ge = ~QLt(a, b) /\ E.ne = (a # b)
MinMaxOk == LET a == In(E.a[1], E.a[2])  b == In(E.b[1], E.b[2]) IN
   /\ SameU(E.min, a) \/ SameU(E.min, b)
   /\ SameU(E.max, a) \/ SameU(E.max, b)
   /\ Same(E.min[1], IF QLt(a.v, b.v) THEN a.v ELSE b.v)
   /\ Same(E.max[1], IF QLt(a.v, b.v) THEN b.v ELSE a.v)
\* floor division and remainder of integers of any size
FDivOk == IF E.b[1] = 0 THEN E.q[1] = 0 /\ E.r[1] = 0
          ELSE /\ E.a = BAdd(BMul(E.q, E.b), E.r)
               /\ AbsLt(E.r, E.b) /\ (E.r[1] = 0 \/ E.r[1] = E.b[1])
\* ... and of quarter-integer floating point numbers: floor of the quotient
FFDivOk == IF E.b = 0 THEN E.r = NaNV
           ELSE LET q == Q(E.a, E.b)
                    fl == IF q[1] >= 0 THEN q[1] \div q[2] ELSE -((-q[1] + q[2] - 1) \div q[2])
                IN Same(E.q, QI(fl)) /\ Same(E.r, QAdd(Q(E.a, 4), QMul(QI(-fl), Q(E.b, 4))))
\* exact large operands: uncertain a, exact b
BigBinOk == LET v == E.out[1]  e == E.out[2]  b2 == BMul(E.b, E.b) IN
   CASE E.f = "mul" -> v = BMul(E.a[1], E.b) /\ e = BMul(E.a[2], b2)
     [] E.f = "add" -> v = BAdd(E.a[1], E.b) /\ e = E.a[2]
     [] E.f = "sub" -> v = BAdd(E.a[1], BNeg(E.b)) /\ e = E.a[2]
     [] E.f = "div" -> BMul(v, E.b) = E.a[1] /\ BMul(e, b2) = E.a[2]
     [] E.f = "rdiv" -> LET a2 == BMul(E.a[1], E.a[1]) IN BMul(v, E.a[1]) = E.b /\ BMul(e, BMul(a2, a2)) = BMul(E.a[2], b2)
IPowOk == E.r = BPow(E.b, E.n)
\* sequences
Steps(x) == {x[i + 1] - x[i] : i \in 1..(Len(x) - 1)}
LinOk == E.out = (Len(E.x) >= 2 /\ \E d \in Steps(E.x) : d > 0 /\ Steps(E.x) = {d})
ArangeOk == E.out = (Len(E.x) < 2 \/ Steps(E.x) = {1})
\* sequences computed in floating point, described by how they were made
LinMadeOk == E.out = (E.made = "linspace")
ClassOk == /\ E.isnan = (E.x = NaNV) /\ E.isinf = (E.x \in {PInf, NInf}) /\ E.isfinite = (E.x \notin {NaNV, PInf, NInf})
           /\ E.x # NaNV => (E.signbit = (E.x < 0 \/ E.negzero) /\ E.isposinf = (E.x = PInf) /\ E.isneginf = (E.x = NInf))
Ok == CASE E.op = "bin" -> BinOk [] E.op = "un" -> UnOk [] E.op = "cmp" -> CmpOk [] E.op = "minmax" -> MinMaxOk
        [] E.op = "fdiv" -> FDivOk [] E.op = "ffdiv" -> FFDivOk [] E.op = "bigbin" -> BigBinOk [] E.op = "ipow" -> IPowOk
        [] E.op = "lin" -> LinOk [] E.op = "arange" -> ArangeOk [] E.op = "linmade" -> LinMadeOk [] E.op = "class" -> ClassOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(Ok, l, E.op) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
