---------------------------- MODULE ReduceTrace ----------------------------
(* Reductions and scans of the real code against their definition (P11).
   Every event stands alone: [op, f, x, a |-> input, ok, r |-> result].        *)
EXTENDS Arrays
VARIABLE l
E == Trace[l]
Xs(a) == IF E.x = "" THEN AllLabels(a) ELSE {E.x}
BinSupported(f) == TRUE
TypeOk(f, a) == a.t \in RedTypes(f)
\* dense variable
RedOk == LET a == E.a IN
    IF E.x = "" /\ a.d = <<>> /\ E.ok /\ E.f \notin Means THEN E.r.d = <<>> /\ E.r.v = a.v /\ E.r.w = a.w /\ E.r.u = a.u
    ELSE IF ~TypeOk(E.f, a) \/ LabelsUnknown(a, Xs(a)) \/ (E.f \in Means /\ a.u = NoUnit) THEN ~E.ok
    ELSE E.ok /\ ReduceOk(E.f, a, Xs(a), NoMask, E.r)
\* data array
DRedOk == LET a == E.a  xs == Xs(a.data) IN
    IF E.x = "" /\ a.data.d = <<>> /\ E.ok THEN E.r.coords = a.coords /\ E.r.masks = a.masks /\ (E.f \notin Means => E.r.data = a.data)
    ELSE IF ~TypeOk(E.f, a.data) \/ LabelsUnknown(a.data, xs) \/ (E.f \in Means /\ a.data.u = NoUnit) THEN ~E.ok
    ELSE LET mk == MaskOf(a.data.d, a.masks, xs)  Masked(i) == mk[i] IN
         /\ E.ok /\ ReduceOk(E.f, a.data, xs, Masked, E.r.data)
         /\ E.r.coords = Keep(a.coords, LAMBDA n : ~DependsOn(a.coords[n], xs))
         /\ E.r.masks = Keep(a.masks, LAMBDA n : ~DependsOn(a.masks[n], xs))
         /\ (E.f \notin Means => E.r.name = a.name)
\* per-bin reduction, or reduction over the events of several bins
BinRows(b, rows, Masked(_)) == [k \in DOMAIN rows |->
    LET ev == Unmasked(b, Join(b, SelectSeq(rows[k], LAMBDA i : ~Masked(i)))) IN [j \in DOMAIN ev |-> <<ev[j][1], ev[j][2]>>]]
BinRedOk(b, xs, Masked(_), r) ==
    /\ r.d = Without(b.d, xs) /\ r.t = RedOut(E.f, b.bt) /\ r.hv = b.hv /\ r.u = b.u
    /\ RowsOk(E.f, b.bt, b.hv, BinRows(b, IF xs = {} THEN [k \in 1..Volume(b.d) |-> <<k>>] ELSE Rows(b.d, xs), Masked), r)
BRedOk == LET b == E.a  xs == IF E.x = "." THEN {} ELSE Xs(b) IN
    IF b.bt \notin RedTypes(E.f) \/ LabelsUnknown(b, xs) \/ (E.f \in Means /\ b.u = NoUnit) THEN ~E.ok
    ELSE E.ok /\ BinRedOk(b, xs, NoMask, E.r)
BDRedOk == LET a == E.a  b == a.data  xs == IF E.x = "." THEN {} ELSE Xs(b) IN
    IF b.bt \notin RedTypes(E.f) \/ LabelsUnknown(b, xs) \/ (E.f \in Means /\ b.u = NoUnit) THEN ~E.ok
    ELSE IF xs # {} /\ \E n \in DOMAIN a.masks : DependsOn(a.masks[n], xs) THEN
         ~E.ok \/ LET mk == MaskOf(b.d, a.masks, xs)  Masked(i) == mk[i] IN BinRedOk(b, xs, Masked, E.r.data)
    ELSE /\ E.ok /\ BinRedOk(b, xs, NoMask, E.r.data)
         /\ E.r.coords = Keep(a.coords, LAMBDA n : ~DependsOn(a.coords[n], xs))
         /\ E.r.masks = Keep(a.masks, LAMBDA n : ~DependsOn(a.masks[n], xs))
\* running sums
CumTypes == {"f8", "f4", "i8", "i4"}
CumOk == LET a == E.a  incl == E.f = "incl" IN
    IF a.t \notin CumTypes \/ a.hv \/ (E.x # "" /\ ~HasDim(a.d, E.x)) THEN
         ~E.ok \/ (HasDim(a.d, E.x) /\ Volume(a.d) = 0)
    ELSE LET rows == IF E.x = "" THEN << [i \in 1..Volume(a.d) |-> i] >> ELSE Rows(a.d, {E.x}) IN
         /\ E.ok /\ E.r.d = a.d /\ E.r.t = a.t /\ E.r.u = a.u /\ E.r.hv = FALSE
         /\ \A k \in DOMAIN rows : [j \in DOMAIN rows[k] |-> E.r.v[rows[k][j]]] = Scan([j \in DOMAIN rows[k] |-> a.v[rows[k][j]]], incl)
CumBinOk == LET b == E.a IN
    IF b.bt \notin CumTypes \/ b.hv THEN ~E.ok
    ELSE /\ E.ok /\ E.r.d = b.d /\ E.r.u = b.u /\ E.r.cn = b.cn
         /\ \A k \in DOMAIN b.ev : LET s == Scan([j \in DOMAIN b.ev[k] |-> b.ev[k][j][1]], E.f = "incl") IN
              Len(E.r.ev[k]) = Len(b.ev[k]) /\ \A j \in DOMAIN b.ev[k] : E.r.ev[k][j] = [b.ev[k][j] EXCEPT ![1] = s[j]]
(* Large inputs, which the code splits among threads.  Rows are given as
   multisets: per output element pairs <<value, how often>>.                   *)
RECURSIVE BigSum(_)
BigSum(p) == IF p = <<>> THEN 0 ELSE p[1][1] * p[1][2] + BigSum(Tail(p))
BigOk == \A k \in DOMAIN E.rows :
    LET p == E.rows[k]
        n == FoldSum([i \in DOMAIN p |-> p[i][2]])
        vs == {p[i][1] : i \in {i \in DOMAIN p : p[i][2] > 0}}
        nn == vs \ {NaNTok}
        sum == IF NaNTok \in vs /\ E.f \notin {"nansum", "nanmean"} THEN NaNTok ELSE BigSum(SelectSeq(p, LAMBDA e : ~IsNaN(e[1])))
        r == E.r[k]
    IN CASE E.f \in Sums -> r = sum
         [] E.f = "wsum" -> r = E.wmul * n          \* variances all equal
         [] E.f \in {"min", "nanmin"} -> IF NaNTok \in vs /\ E.f = "min" THEN IsNaN(r) ELSE r \in nn /\ \A x \in nn : r <= x
         [] E.f \in {"max", "nanmax"} -> IF NaNTok \in vs /\ E.f = "max" THEN IsNaN(r) ELSE r \in nn /\ \A x \in nn : r >= x
         [] E.f = "all" -> r = BoolI(0 \notin vs)
         [] E.f = "any" -> r = BoolI(1 \in vs)
Verdict == CASE E.op = "red" -> RedOk [] E.op = "dred" -> DRedOk [] E.op = "bred" -> BRedOk [] E.op = "bdred" -> BDRedOk
             [] E.op = "cum" -> CumOk [] E.op = "cumbin" -> CumBinOk [] E.op = "big" -> BigOk
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
