------------------------------- MODULE Arrays -------------------------------
(* Values of variables and data arrays, as recorded by the drivers:
     variable   [d |-> labelled shape, v |-> values in row-major order, w |-> variances,
                 hv, u |-> unit, t |-> element type]            (vec: 3 numbers per element)
     binned     [d, t |-> "bin", bt, u, hv, bd, cn, mn, cu, ev |-> per bin, in row-major order,
                 the sequence of events <<value, variance, coords..., masks...>>]
     data array [data, coords |-> [name -> variable + al], masks |-> [name -> variable], name]
   This module: cells by label, masks, reductions and scans (P11).             *)
EXTENDS Views

PInf == 2000000002
NInf == -2000000002
HiTok == 2000000003
LoTok == -2000000003
\* order of recorded numbers (the largest finite value is below infinity)
Key(a) == IF a = PInf THEN 2000000005 ELSE IF a = NInf THEN -2000000005 ELSE a
Leq(a, b) == Key(a) <= Key(b)
Lss(a, b) == Key(a) < Key(b)
IsNaN(a) == a = NaNTok
AddTok(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaNTok
                ELSE IF {a, b} \cap {PInf, NInf} = {} THEN a + b
                ELSE IF {a, b} \cap {PInf, NInf} = {PInf, NInf} THEN NaNTok
                ELSE IF PInf \in {a, b} THEN PInf ELSE NInf
RECURSIVE SumTok(_)
SumTok(q) == IF q = <<>> THEN 0 ELSE AddTok(q[1], SumTok(Tail(q)))
Float(t) == t \in {"f8", "f4"}

(* ---- cells ---- *)
NV(a) == Volume(a.d)
\* numbers of the elements of a for every position of D (labels of a are among those of D)
At(a, D) == ByLabel(a.d, D)
\* <<value, variance>> of element i; component j of vectors
El(a, i, j) == IF a.t = "vec" THEN <<a.v[3 * (i - 1) + j], 0>> ELSE <<a.v[i], IF a.hv THEN a.w[i] ELSE 0>>
NComps(a) == IF a.t = "vec" THEN 3 ELSE 1
\* shape without labels xs; all positions of shape S agreeing with position k of that
Without(S, xs) == SelectSeq(S, LAMBDA e : e[1] \notin xs)
With(S, xs) == SelectSeq(S, LAMBDA e : e[1] \in xs)
\* cells (numbers in S) of the k-th position of Without(S, xs), in row-major order of With(S, xs)
Rows(S, xs) ==
    LET O == Without(S, xs)  I == With(S, xs)
        ro == RowMajor(O)  ri == RowMajor(I)  rs == RowMajor(S)
        no == Volume(O)  ni == Volume(I)
        pO == [i \in DOMAIN O |-> PosOf(S, O[i][1])]  pI == [i \in DOMAIN I |-> PosOf(S, I[i][1])]
    IN [k \in 1..no |-> [j \in 1..ni |->
          1 + FoldSum([i \in DOMAIN O |-> rs[pO[i]] * (((k - 1) \div ro[i]) % O[i][2])])
            + FoldSum([i \in DOMAIN I |-> rs[pI[i]] * (((j - 1) \div ri[i]) % I[i][2])])]]

(* ---- reductions of a sequence of <<value, variance>> ---- *)
Plain(q) == [i \in DOMAIN q |-> q[i][1]]
Varis(q) == [i \in DOMAIN q |-> q[i][2]]
NotNaN(q) == SelectSeq(q, LAMBDA e : ~IsNaN(e[1]))
Finite(q) == SelectSeq(q, LAMBDA e : e[1] \notin {NaNTok, PInf, NInf})
\* set of possible <<value, variance>>
RedSum(q) == {<<SumTok(Plain(q)), SumTok(Varis(q))>>}
Extreme(q, B(_, _), empty) ==
    IF q = <<>> THEN {<<empty, 0>>}
    ELSE LET nan == {e \in ToSetQ(q) : IsNaN(e[1])} IN
         IF nan # {} THEN nan
         ELSE {e \in ToSetQ(q) : \A o \in ToSetQ(q) : B(e[1], o[1])}
Geq(a, b) == Leq(b, a)
RedMin(q, hi) == Extreme(q, Leq, hi)
RedMax(q, lo) == Extreme(q, Geq, lo)
\* mean scaled by 840, its variance by 840^2
RedMean(q, n) == LET s == SumTok(Plain(q))  w == SumTok(Varis(q)) IN
    IF n = 0 THEN {<<NaNTok, NaNTok>>}
    ELSE {<<IF s \in {NaNTok, PInf, NInf} THEN s ELSE s * (840 \div n), w * (840 \div n) * (840 \div n)>>}
HiOf(t) == IF t = "bool" THEN 1 ELSE HiTok
LoOf(t) == IF t = "bool" THEN 0 ELSE LoTok
Reduce(f, t, q) ==
    CASE f = "sum" -> RedSum(q)
      [] f = "nansum" -> RedSum(NotNaN(q))
      [] f = "min" -> RedMin(q, HiOf(t))
      [] f = "max" -> RedMax(q, LoOf(t))
      [] f = "nanmin" -> RedMin(NotNaN(q), HiOf(t))
      [] f = "nanmax" -> RedMax(NotNaN(q), LoOf(t))
      [] f = "all" -> {<<BoolI(\A i \in DOMAIN q : q[i][1] = 1), 0>>}
      [] f = "any" -> {<<BoolI(\E i \in DOMAIN q : q[i][1] = 1), 0>>}
      [] f = "mean" -> RedMean(q, Len(q))
      [] f = "nanmean" -> RedMean(NotNaN(q), Len(Finite(q)))
Sums == {"sum", "nansum"}
Extremes == {"min", "max", "nanmin", "nanmax"}
Means == {"mean", "nanmean"}
Bools == {"all", "any"}
RedTypes(f) == CASE f = "sum" -> {"f8", "f4", "i8", "i4", "bool", "vec"}
                 [] f = "nansum" -> {"f8", "f4", "i8", "i4", "bool", "vec"}
                 [] f \in Extremes -> {"f8", "f4", "i8", "i4", "bool", "dt"}
                 [] f \in Bools -> {"bool"}
                 [] f = "mean" -> {"f8", "f4", "i8", "i4", "bool", "vec"}
                 [] f = "nanmean" -> {"f8", "f4", "i8", "i4", "vec"}
RedOut(f, t) == IF f \in Sums /\ t = "bool" THEN "i8"
                ELSE IF f \in Means /\ t \notin {"f4", "vec"} THEN "f8" ELSE t
\* r is the reduction f of rows of <<value, variance>> (one row per element and component)
RowsOk(f, t, hv, rows, r) ==
    \A k \in DOMAIN rows : \E e \in Reduce(f, t, rows[k]) : r.v[k] = e[1] /\ (hv => r.w[k] = e[2] \/ (f \in Means /\ IsNaN(e[1])))

\* masked(i): is element i of a left out?
ReduceOk(f, a, xs, Masked(_), r) ==
    LET R0 == Rows(a.d, xs)  m == NComps(a) IN
    /\ r.d = Without(a.d, xs) /\ r.t = RedOut(f, a.t) /\ r.hv = a.hv /\ r.u = a.u
    /\ RowsOk(f, a.t, a.hv,
              [k \in 1..(m * Len(R0)) |-> LET row == SelectSeq(R0[(k - 1) \div m + 1], LAMBDA i : ~Masked(i))
                                          IN [j \in DOMAIN row |-> El(a, row[j], ((k - 1) % m) + 1)]], r)
LabelsUnknown(a, xs) == \E x \in xs : ~HasDim(a.d, x)
AllLabels(a) == LabelSet(a.d)
NoMask(i) == FALSE

(* ---- data arrays ---- *)
DependsOn(v, xs) == LabelSet(v.d) \cap xs # {}
Keep(map, P(_)) == [n \in {n \in DOMAIN map : P(n)} |-> map[n]]
\* element i of data with shape S is masked by one of the masks depending on xs
MaskOf(S, masks, xs) ==
    LET ms == {n \in DOMAIN masks : DependsOn(masks[n], xs)}
        at == [n \in ms |-> ByLabel(masks[n].d, S)]
    IN [i \in 1..Volume(S) |-> \E n \in ms : masks[n].v[at[n][i]] = 1]

(* ---- binned ---- *)
NCoords(b) == Len(b.cn)
\* is event e masked?
EvMasked(b, e) == \E k \in DOMAIN b.mn : e[2 + Len(b.cn) + k] = 1
Unmasked(b, q) == SelectSeq(q, LAMBDA e : ~EvMasked(b, e))
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
\* the events of several bins
Join(b, cells) == Flat([j \in DOMAIN cells |-> b.ev[cells[j]]])
CoordIx(b, n) == 2 + CHOOSE k \in DOMAIN b.cn : b.cn[k] = n

(* ---- scans ---- *)
UpTo(q, n) == SubSeq(q, 1, n)
Scan(q, incl) == [i \in DOMAIN q |-> SumTok(UpTo(q, IF incl THEN i ELSE i - 1))]
=============================================================================
