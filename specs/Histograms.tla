----------------------------- MODULE Histograms -----------------------------
(* Histogramming, rebinning and lookup as functions of events, edges and
   values (P18).  Records as in module Arrays, keys as in module Events.     *)
EXTENDS Events

SumP(q) == <<SumTok(Plain(q)), SumTok(Varis(q))>>
\* shape with the labels of s added
Merge(S, s) == S \o Without(s, LabelSet(S))
Agree(S, s) == \A x \in LabelSet(S) \cap LabelSet(s) : Ext(S, x) = Ext(s, x)
\* sequences along x of v, one for each position of D; D may lack labels of v only if that is x
RowsAt(v, x, D) == LET O == Without(v.d, {x})  c == IF O = <<>> THEN [i \in 1..Volume(D) |-> 1] ELSE ByLabel(O, D)
                       R0 == Rows(v.d, {x})  q == [i \in DOMAIN R0 |-> [j \in DOMAIN R0[i] |-> v.v[R0[i][j]]]]
                   IN [p \in 1..Volume(D) |-> q[c[p]]]
PairRowsAt(v, x, D) == LET O == Without(v.d, {x})  c == IF O = <<>> THEN [i \in 1..Volume(D) |-> 1] ELSE ByLabel(O, D)
                           R0 == Rows(v.d, {x})  q == [i \in DOMAIN R0 |-> [j \in DOMAIN R0[i] |-> <<v.v[R0[i][j]], IF v.hv THEN v.w[R0[i][j]] ELSE 0>>]]
                       IN [p \in 1..Volume(D) |-> q[c[p]]]
\* r holds the given pairs, in the order of the positions of D
Holding(r, D, pairs) ==
    /\ Len(r.d) = Len(D) /\ LabelSet(r.d) = LabelSet(D) /\ \A x \in LabelSet(D) : Ext(r.d, x) = Ext(D, x)
    /\ LET at == ByLabel(r.d, D) IN
       \A p \in 1..Volume(D) : /\ r.v[at[p]] = pairs[p][1]
                               /\ (r.hv => r.w[at[p]] = pairs[p][2] \/ IsNaN(pairs[p][1]))
\* coords and masks of the result when dimension x is consumed
MetaOk(a, x, r, extra) ==
    LET stay(m) == {n \in DOMAIN m : ~DependsOn(m[n], {x})} IN
    /\ DOMAIN r.coords = stay(a.coords) \cup extra
    /\ \A n \in stay(a.coords) \ extra : SameVar(r.coords[n], a.coords[n]) /\ r.coords[n].al = a.coords[n].al
    /\ DOMAIN r.masks = stay(a.masks) /\ \A n \in stay(a.masks) : SameVar(r.masks[n], a.masks[n])
    /\ r.name = a.name

(* ---- histogram ---- *)
Unsorted(v, x) == \E i \in DOMAIN Rows(v.d, {x}) : ~Rising([j \in 1..Ext(v.d, x) |-> v.v[Rows(v.d, {x})[i][j]]])
HistOk(a, k, mixed, ok, r) ==
    LET x == k.x  e == k.v  binned == a.data.t = "bin"
        n == Ext(e.d, x)
        S == a.data.d
        has == IF binned THEN x \in ToSetQ(a.data.cn) ELSE x \in DOMAIN a.coords
        c == a.coords[x]
        gone == IF binned THEN x ELSE IF has THEN DimOf(S, x, c) ELSE ""
        O == Without(S, {gone})
        outer == Without(e.d, {x})
        D0 == Merge(O, outer)
        D == D0 \o << <<x, n - 1>> >>
        unit == IF binned THEN a.data.cu[CoordIx(a.data, x) - 2] ELSE c.u
        edges == ~binned /\ has /\ (\E y \in LabelSet(c.d) : EdgesOf(S, c, y) \/ ~HasDim(S, y))
        refuse == \/ ~has \/ unit # e.u \/ (~binned /\ gone = "") \/ edges
                  \/ HasDim(O, x) \/ ~Agree(O, outer)
                  \/ (Unsorted(e, x) /\ Volume(S) > 0 /\ Volume(D0) > 0)
        rows == RowsAt(e, x, D0)
        mk == MaskOf(S, a.masks, {gone})
        \* the <<coord, <<value, variance>> >> met at every position of O
        cells == Rows(S, {gone})
        cv == IF binned THEN <<>> ELSE ByLabel(c.d, S)
        ev == [q \in DOMAIN cells |->
                 LET live == SelectSeq(cells[q], LAMBDA i : ~mk[i]) IN
                 IF binned THEN LET b == a.data  l == Unmasked(b, Join(b, live)) IN [j \in DOMAIN l |-> <<l[j][CoordIx(b, x)], <<l[j][1], l[j][2]>>>>]
                 ELSE [j \in DOMAIN live |-> <<c.v[cv[live[j]]], El(a.data, live[j], 1)>>]]
        at == ByLabel(O, D0)
        pairs == [p \in 1..Volume(D) |->
                   LET d0 == ((p - 1) \div (n - 1)) + 1  f == ((p - 1) % (n - 1)) + 1
                       h == SelectSeq(ev[at[d0]], LAMBDA t : InEdges(rows[d0], t[1]) = f)
                   IN SumP([j \in DOMAIN h |-> h[j][2]])]
    IN IF n < 2 THEN TRUE
       ELSE IF refuse THEN ~ok
       ELSE IF ~ok THEN mixed \/ (Unsorted(e, x))
       ELSE /\ r.data.t = (IF binned THEN a.data.bt ELSE a.data.t) /\ r.data.u = a.data.u /\ r.data.hv = a.data.hv
            /\ Holding(r.data, D, pairs)
            /\ SameVar(r.coords[x], e)
            /\ MetaOk(a, gone, r, {x})

(* ---- rebin: contents are spread evenly over their bins ---- *)
Falling(q) == \A i \in 1..(Len(q) - 1) : Leq(q[i + 1], q[i])
MaxI(i, j) == IF i > j THEN i ELSE j
MinI(i, j) == IF i < j THEN i ELSE j
Low(q, i) == MinI(q[i], q[i + 1])
Wid(q, i) == MaxI(q[i], q[i + 1]) - Low(q, i)
Overlap(p, i, q, j) == MaxI(0, MinI(Low(p, i) + Wid(p, i), Low(q, j) + Wid(q, j)) - MaxI(Low(p, i), Low(q, j)))
\* contents are multiples of the widths; empty bins of no width are left out
Share(p, v, q, j) == LET I == SelectSeq([i \in 1..(Len(p) - 1) |-> i], LAMBDA i : Wid(p, i) > 0) IN
    FoldSum([k \in DOMAIN I |-> (v[I[k]] * Overlap(p, I[k], q, j)) \div Wid(p, I[k])])
Both(v, x, S(_)) == LET R0 == Rows(v.d, {x}) IN \A i \in DOMAIN R0 : S([j \in DOMAIN R0[i] |-> v.v[R0[i][j]]])
RebinOk(a, x, e, mixed, ok, r) ==
    LET S == a.data.d
        has == x \in DOMAIN a.coords /\ HasDim(S, x)
        c == a.coords[x]
        n == Ext(e.d, x)
        O == Without(S, {x})
        sorted == (Both(c, x, Rising) /\ Both(e, x, Rising)) \/ (Both(c, x, Falling) /\ Both(e, x, Falling))
        refuse == ~has \/ ~HasDim(c.d, x) \/ ~EdgesOf(S, c, x) \/ c.u # e.u \/ ~sorted
        loose == n < 2 \/ ~(LabelSet(Without(e.d, {x})) \subseteq LabelSet(O)) \/ ~Agree(O, Without(e.d, {x}))
        D == [i \in DOMAIN S |-> IF S[i][1] = x THEN <<x, n - 1>> ELSE S[i]]
        D0 == O
        mk == MaskOf(S, a.masks, {x})
        cells == Rows(S, {x})
        old == RowsAt(c, x, D0)  new == RowsAt(e, x, D0)
        val == [q \in DOMAIN cells |-> [j \in DOMAIN cells[q] |-> IF mk[cells[q][j]] THEN <<0, 0>> ELSE El(a.data, cells[q][j], 1)]]
        pairs == [p \in 1..Volume(D) |->
                   LET d0 == ((p - 1) \div (n - 1)) + 1  f == ((p - 1) % (n - 1)) + 1 IN
                   <<Share(old[d0], Plain(val[d0]), new[d0], f), Share(old[d0], Varis(val[d0]), new[d0], f)>>]
    IN IF ~has THEN ~ok
       ELSE IF refuse THEN ~ok \/ (Volume(S) = 0 /\ sorted)
       ELSE IF loose THEN TRUE
       ELSE IF ~ok THEN mixed
       ELSE
            /\ r.data.t = (IF a.data.t \in {"f8", "f4"} THEN a.data.t ELSE "f8") /\ r.data.u = a.data.u /\ r.data.hv = a.data.hv
            /\ Holding(r.data, D0 \o << <<x, n - 1>> >>, pairs)
            /\ SameVar(r.coords[x], e)
            /\ MetaOk(a, x, r, {x})

(* ---- lookup ---- *)
\* f: histogram (or, for "previous", points) over x; v: where to look
Prev(q, v) == LET h == {i \in DOMAIN q : Leq(q[i], v)} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : j <= i
LookupShape(f, x, v) == Merge(v.d, Merge(Without(f.data.d, {x}), Without(f.coords[x].d, {x})))
LookupPairs(f, x, v, fill, prev) ==
    LET D == LookupShape(f, x, v)
        c == RowsAt(f.coords[x], x, D)
        mk == MaskOf(f.data.d, f.masks, {x})
        fm == [f.data EXCEPT !.v = [i \in DOMAIN mk |-> IF mk[i] THEN fill[1] ELSE @[i]],
                             !.w = IF f.data.hv THEN [i \in DOMAIN mk |-> IF mk[i] THEN fill[2] ELSE @[i]] ELSE <<>>]
        t == PairRowsAt(fm, x, D)
        at == ByLabel(v.d, D)
    IN [p \in 1..Volume(D) |-> LET i == IF prev THEN Prev(c[p], v.v[at[p]]) ELSE InEdges(c[p], v.v[at[p]]) IN IF i = 0 THEN fill ELSE t[p][i]]
FillOf(f, hasFill, fill) ==
    IF hasFill THEN <<fill.v[1], IF fill.hv THEN fill.w[1] ELSE 0>>
    ELSE <<IF f.data.t \in {"f8", "f4"} THEN NaNTok ELSE 0, 0>>
LookupOk(f, x, v, hasFill, fill, prev, mixed, ok, r) ==
    LET has == x \in DOMAIN f.coords /\ HasDim(f.data.d, x) /\ HasDim(f.coords[x].d, x)
        c == f.coords[x]
        refuse == \/ ~prev /\ ~EdgesOf(f.data.d, c, x)
                  \/ Unsorted(c, x) \/ c.u # v.u
                  \/ (hasFill /\ (fill.t # f.data.t \/ fill.u # f.data.u))
        clash == ~Agree(v.d, Without(f.data.d, {x})) \/ ~Agree(v.d, Without(c.d, {x}))
        D == LookupShape(f, x, v)
    IN IF ~has THEN ~ok
       ELSE IF refuse \/ clash THEN ~ok \/ Volume(D) = 0
       ELSE IF ~ok THEN mixed \/ Volume(D) = 0
       ELSE /\ r.t = f.data.t /\ r.u = f.data.u /\ r.hv = f.data.hv
            /\ Holding(r, D, LookupPairs(f, x, v, FillOf(f, hasFill, fill), prev))

(* ---- scale events by a histogram ---- *)
\* b: binned data before, r: after
ScaleEvents(b, f, x, r) ==
    LET S == b.d
        c == RowsAt(f.coords[x], x, S)
        mk == MaskOf(f.data.d, f.masks, {x})
        fm == [f.data EXCEPT !.v = [i \in DOMAIN mk |-> IF mk[i] THEN 0 ELSE @[i]],
                             !.w = IF f.data.hv THEN [i \in DOMAIN mk |-> IF mk[i] THEN 0 ELSE @[i]] ELSE <<>>]
        t == PairRowsAt(fm, x, S)
        new(q, e) == LET i == InEdges(c[q], e[CoordIx(b, x)])
                         g == IF i = 0 THEN <<0, 0>> ELSE t[q][i]
                     IN [e EXCEPT ![1] = e[1] * g[1], ![2] = e[2] * g[1] * g[1] + g[2] * e[1] * e[1]]
    IN r = [b EXCEPT !.ev = [q \in DOMAIN b.ev |-> [j \in DOMAIN b.ev[q] |-> new(q, b.ev[q][j])]], !.u = <<b.u[1], b.u[2] + f.data.u[2], b.u[3] + f.data.u[3]>>]
=============================================================================
