------------------------------- MODULE Events -------------------------------
(* Tables of events and what becomes of them: binning and grouping (P16),
   histogramming and lookup (P18).  Records as in module Arrays.
   A key is [g |-> is it a list of group labels (or bin edges), x |-> label, v |-> variable].  *)
EXTENDS DataArrays

(* ---- a dense table is a single bin of events ---- *)
Dense(a) == a.data.t # "bin"
\* (the driver gives the names of the columns in the order of the records, a.cn and a.mn)
TableOf(a, cn, mn) ==
    LET x == a.data.d[1][1]  n == a.data.d[1][2] IN
    [d |-> <<>>, t |-> "bin", bt |-> a.data.t, u |-> a.data.u, hv |-> a.data.hv, bd |-> x, cn |-> cn, mn |-> mn,
     cu |-> [k \in DOMAIN cn |-> a.coords[cn[k]].u],
     ev |-> << [i \in 1..n |-> <<a.data.v[i], IF a.data.hv THEN a.data.w[i] ELSE 0>>
                                \o [k \in DOMAIN cn |-> a.coords[cn[k]].v[i]] \o [k \in DOMAIN mn |-> a.masks[mn[k]].v[i]]] >>]

(* ---- keys ---- *)
Rising(q) == \A i \in 1..(Len(q) - 1) : Leq(q[i], q[i + 1])
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
\* number of the bin (0: none) holding v
InEdges(q, v) == IF IsNaN(v) \/ Len(q) < 2 THEN 0
                 ELSE LET h == {i \in 1..(Len(q) - 1) : Leq(q[i], v) /\ Lss(v, q[i + 1])} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
InGroups(q, v) == LET h == {i \in DOMAIN q : q[i] = v} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
Place(k, q, v) == IF k.g THEN InGroups(q, v) ELSE InEdges(q, v)
KeyExt(k) == Ext(k.v.d, k.x) - (IF k.g THEN 0 ELSE 1)
\* all 1-D sequences of a key
KeyRows(k) == LET R0 == Rows(k.v.d, {k.x}) IN [i \in DOMAIN R0 |-> [j \in DOMAIN R0[i] |-> k.v.v[R0[i][j]]]]
\* the one for position q of shape S
KeyRowAt(k, S) == LET O == Without(k.v.d, {k.x})  c == IF O = <<>> THEN [i \in 1..Volume(S) |-> 1] ELSE ByLabel(O, S)  R0 == KeyRows(k)
                  IN [q \in 1..Volume(S) |-> R0[c[q]]]
BadKey(k) == ~k.g /\ (Ext(k.v.d, k.x) < 2 \/ \E i \in DOMAIN KeyRows(k) : ~Rising(KeyRows(k)[i]))
DupGroups(k) == k.g /\ \E i \in DOMAIN KeyRows(k) : ~Distinct(KeyRows(k)[i])

(* ---- binning ---- *)
\* b: the events, S: shape of their bins, coords: coords of the bins
\* target of every event: per bin the sequence of <<index per key>>, 0 where it fits nowhere
KeyVals(b, S, coords, k) ==
    IF k.x \in ToSetQ(b.cn) THEN [q \in DOMAIN b.ev |-> [j \in DOMAIN b.ev[q] |-> b.ev[q][j][CoordIx(b, k.x)]]]
    ELSE LET c == coords[k.x]  at == ByLabel(c.d, S) IN [q \in DOMAIN b.ev |-> [j \in DOMAIN b.ev[q] |-> c.v[at[q]]]]
Targets(b, S, coords, keys) ==
    LET vals == [n \in DOMAIN keys |-> KeyVals(b, S, coords, keys[n])]
        rows == [n \in DOMAIN keys |-> KeyRowAt(keys[n], S)]
    IN [q \in DOMAIN b.ev |-> [j \in DOMAIN b.ev[q] |-> [n \in DOMAIN keys |-> Place(keys[n], rows[n][q], vals[n][q][j])]]]
\* unit and type of the values of a key
ColUnit(b, coords, k) == IF k.x \in ToSetQ(b.cn) THEN b.cu[CoordIx(b, k.x) - 2] ELSE coords[k.x].u
HasKey(b, coords, k) == k.x \in ToSetQ(b.cn) \/ k.x \in DOMAIN coords
\* a coord of the bins can stand in for one of the events unless it has edges
PerBin(b, S, coords, k) == k.x \in ToSetQ(b.cn) \/ (\A y \in LabelSet(coords[k.x].d) : HasDim(S, y) /\ Ext(S, y) = Ext(coords[k.x].d, y))
Perms(I) == {p \in [DOMAIN I -> DOMAIN I] : \A i, j \in DOMAIN I : i # j => p[i] # p[j]}
\* events of the cells, in the order of one of the ways to walk through the cells
WalkOrders(S, gone) ==
    LET I == With(S, gone)  O == Without(S, gone) IN
    {LET P == O \o [i \in DOMAIN I |-> I[p[i]]]  c == ByLabel(S, P)      \* c: cell of S for each position of P
         n == Volume(I)
     IN [k \in 1..Volume(O) |-> [j \in 1..n |-> c[(k - 1) * n + j]]] : p \in Perms(I)}
\* r: the resulting binned variable; new: shape of the new dims in order of keys
\* hidden(q): bin q is masked and does not take part; loose(k): output row k may have been hidden
BinnedOk(b, S, coords, keys, gone, Hidden(_), drop, r, Loose(_)) ==
    LET new == [n \in DOMAIN keys |-> <<keys[n].x, KeyExt(keys[n])>>]
        O == Without(S, gone)
        D == O \o new
        T == Targets(b, S, coords, keys)
        nn == Volume(new)
        rn == RowMajor(new)
        cols == <<1, 2>> \o SelectSeq([i \in DOMAIN b.cn |-> i + 2], LAMBDA i : b.cn[i - 2] \notin drop) \o [i \in DOMAIN b.mn |-> i + 2 + Len(b.cn)]
        cut(e) == [i \in DOMAIN cols |-> e[cols[i]]]
        \* flat index (from 1) among the new bins, 0: dropped
        flat == [q \in DOMAIN b.ev |-> [j \in DOMAIN b.ev[q] |->
                   IF \E n \in DOMAIN keys : T[q][j][n] = 0 THEN 0 ELSE 1 + FoldSum([n \in DOMAIN keys |-> rn[n] * (T[q][j][n] - 1)])]]
        pick(q, f) == LET js == SelectSeq([j \in DOMAIN b.ev[q] |-> j], LAMBDA j : flat[q][j] = f) IN [i \in DOMAIN js |-> cut(b.ev[q][js[i]])]
        orders == WalkOrders(S, gone)
        perm == ByLabel(r.d, D)          \* cell of r for each position of D
    IN /\ LabelSet(r.d) = LabelSet(D) /\ Len(r.d) = Len(D) /\ \A x \in LabelSet(D) : Ext(r.d, x) = Ext(D, x)
       /\ r.bt = b.bt /\ r.u = b.u /\ r.hv = b.hv
       /\ r.cn = SelectSeq(b.cn, LAMBDA n : n \notin drop) /\ r.mn = b.mn
       /\ \A i \in DOMAIN r.cn : r.cu[i] = b.cu[CHOOSE j \in DOMAIN b.cn : b.cn[j] = r.cn[i]]
       /\ \A k \in 1..Volume(O) : \A f \in 1..nn :
            LET got == r.ev[perm[(k - 1) * nn + f]] IN
            \/ Loose(k) /\ got = <<>>
            \/ \E w \in orders : got = Flat([j \in DOMAIN w[k] |-> IF Hidden(w[k][j]) THEN <<>> ELSE pick(w[k][j], f)])
BinOk(a, keys, erase, mixed, ok, r) ==
    LET dense == Dense(a)
        x == IF dense /\ a.data.d # <<>> THEN a.data.d[1][1] ELSE ""
        isCol(m, n) == HasDim(m[n].d, x)
        b == IF ~dense THEN a.data
             ELSE IF Len(a.data.d) # 1 THEN [cn |-> a.cn] ELSE TableOf(a, a.cn, a.mn)
        S == IF dense THEN <<>> ELSE a.data.d
        coords == IF dense THEN Keep(a.coords, LAMBDA n : ~isCol(a.coords, n)) ELSE a.coords
        masks == IF dense THEN Keep(a.masks, LAMBDA n : ~isCol(a.masks, n)) ELSE a.masks
        names == {keys[n].x : n \in DOMAIN keys}
        gone == names \cup ToSetQ(erase)
        refuse == \/ keys = <<>> \/ (dense /\ Len(a.data.d) # 1)
                  \/ \E n \in DOMAIN keys : BadKey(keys[n]) \/ ~HasKey(b, coords, keys[n])
        refuse2 == \E n \in DOMAIN keys : \/ ColUnit(b, coords, keys[n]) # keys[n].v.u
                                          \/ ~PerBin(b, S, coords, keys[n])
                                          \/ (DupGroups(keys[n]) /\ Volume(keys[n].v.d) > 0)
        \* edges that differ from bin to bin must follow dims that stay
        keyFits == \A n \in DOMAIN keys : LabelSet(keys[n].v.d) \ {keys[n].x} \subseteq LabelSet(Without(S, gone))
                                          /\ \A y \in LabelSet(keys[n].v.d) \ {keys[n].x} : Ext(keys[n].v.d, y) = Ext(S, y)
        \* a coord of more dims for a bin dimension that is moved
        mayRefuse == \/ ~keyFits \/ mixed \/ \E y \in LabelSet(Without(S, gone)) : y \in DOMAIN coords /\ Len(coords[y].d) # 1
        mk == MaskOf(S, masks, gone)
        O == Without(S, gone)
        kept == [k \in 1..Volume(O) |-> \E n \in DOMAIN masks : ~DependsOn(masks[n], gone) /\ masks[n].v[ByLabel(masks[n].d, O)[k]] = 1]
        drop == {keys[n].x : n \in {n \in DOMAIN keys : keys[n].g}}
        stay(m) == {n \in DOMAIN m : ~DependsOn(m[n], gone)}
    IN IF refuse \/ (dense /\ a.data.d = <<>>) THEN ~ok
       ELSE IF refuse2 THEN ~ok
       ELSE IF ~ok THEN mayRefuse
       ELSE IF ~keyFits THEN TRUE
       ELSE /\ BinnedOk(b, S, coords, keys, gone, LAMBDA q : mk[q], drop, r.data, LAMBDA k : kept[k])
            /\ DOMAIN r.coords = (stay(coords) \ names) \cup names
            /\ \A n \in DOMAIN keys : SameVar(r.coords[keys[n].x], keys[n].v) /\ r.coords[keys[n].x].al
            /\ \A n \in stay(coords) \ names : SameVar(r.coords[n], coords[n]) /\ r.coords[n].al = coords[n].al
            /\ DOMAIN r.masks = stay(masks) /\ \A n \in stay(masks) : SameVar(r.masks[n], masks[n])
=============================================================================
