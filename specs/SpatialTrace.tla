---------------------------- MODULE SpatialTrace ----------------------------
EXTENDS Spatial, TraceIO
VARIABLE l
E == Trace[l]
Grid == 4096
\* recorded round(Grid * x) against the rational n / d
Near(out, n, d) == LET df == 2 * AbsS(out * d - n * Grid) IN df <= d + (d \div 50)
NearV(o, q) == \A i \in I3 : Near(o[i], q[1][i], q[2])
Pts == << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
ActOk(o, T) == Len(o) = 4 /\ \A i \in 1..4 : NearV(o[i], ActQ(T, Pts[i], 1))
RECURSIVE Chain(_)
Chain(p) == IF Len(p) = 1 THEN Mk(p[1]) ELSE Compose(Mk(p[1]), Chain(Tail(p)))
ComposeOk == LET T == Chain(E.parts) IN E.kind = T.k /\ ActOk(E.act, T) /\ ActOk(E.seq, T)
InvOk == LET T == Inverse(Chain(E.parts)) IN E.kind = T.k /\ ActOk(E.act, T) /\ ActOk(E.round, Identity) /\ ActOk(E.round2, Identity)
QMulOk == \A i \in 1..4 : E.out[i] = Hamilton(E.a, E.b)[i] * Grid
QInvOk == \A i \in 1..4 : Near(E.out[i], Conj(E.a)[i], QN(E.a))
EqOk == LET same == E.ka = E.kb /\ E.a = E.b /\ E.nan = FALSE IN
        E.eq = same /\ E.ne = ~same /\ E.veq = (same /\ E.ua = E.ub) /\ E.vne = ~(same /\ E.ua = E.ub)
MaxD == LET D == {AbsS(E.a[i] - E.b[i]) : i \in DOMAIN E.a} IN CHOOSE m \in D : \A x \in D : x <= m
CloseOk == E.out = (MaxD <= E.tol)
UnitOk == IF UnitRefused(E.ka, E.kb, E.ua, E.ub) THEN IsRefused(E.out) ELSE ~IsRefused(E.out) /\ E.out = UnitProd(E.ka, E.kb, E.ua, E.ub)
InvUnitOk == E.out = InvUnit(E.k, E.u)
\* unit conversion acts on the part that carries the unit; the pure linear kinds refuse
ToUnitOk == IF E.k \in {"rot", "lin"} THEN IsRefused(E.out)
            ELSE ~IsRefused(E.out) /\ \A i \in DOMAIN E.a : E.out[i] = IF E.k = "aff" /\ i \notin 13..15 THEN E.a[i] ELSE E.a[i] * E.scale
\* element access: rec.keys / rec.coef: column-major position of the component
KeyPos(k, key) == IF k = "vec" THEN CASE key = "x" -> 1 [] key = "y" -> 2 [] key = "z" -> 3 [] OTHER -> 0
                  ELSE IF k = "lin" THEN CASE key = "xx" -> 1 [] key = "yx" -> 2 [] key = "zx" -> 3 [] key = "xy" -> 4 [] key = "yy" -> 5
                     [] key = "zy" -> 6 [] key = "xz" -> 7 [] key = "yz" -> 8 [] key = "zz" -> 9 [] OTHER -> 0
                  ELSE 0
ElemOk == LET p == KeyPos(E.k, E.key) IN
   IF p = 0 THEN IsRefused(E.got)
   ELSE /\ ~IsRefused(E.got) /\ E.got = [i \in DOMAIN E.a |-> E.a[i][p]] /\ E.unit = E.u
        /\ E.after = [i \in DOMAIN E.a |-> [j \in DOMAIN E.a[i] |-> IF j = p THEN E.put[i] ELSE E.a[i][j]]]
\* flat values in storage order -> what the object reports through its row/column interface
MakeOk == CASE E.k = "vec" -> E.out = E.a
            [] E.k = "tr" -> E.out = E.a
            [] E.k = "rot" -> E.out = E.a
            [] E.k = "lin" -> E.out = [i \in 1..3 |-> [j \in 1..3 |-> E.a[3 * (j - 1) + i]]]
            [] E.k = "aff" -> E.out = [i \in 1..4 |-> [j \in 1..4 |-> E.a[4 * (j - 1) + i]]]
IndexOk == IF E.i \in 0..(Len(E.a) - 1) THEN ~IsRefused(E.out) /\ E.out = E.a[E.i + 1] ELSE IsRefused(E.out)
Ok == CASE E.op = "compose" -> ComposeOk [] E.op = "inv" -> InvOk [] E.op = "qmul" -> QMulOk [] E.op = "qinv" -> QInvOk
        [] E.op = "eq" -> EqOk [] E.op = "close" -> CloseOk [] E.op = "unit" -> UnitOk [] E.op = "invunit" -> InvUnitOk
        [] E.op = "tounit" -> ToUnitOk [] E.op = "elem" -> ElemOk [] E.op = "make" -> MakeOk [] E.op = "index" -> IndexOk
TInit == l = 1
TNext == l <= Len(Trace) /\ Judge(Ok, l, E.op) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
