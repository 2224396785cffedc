----------------------------- MODULE DataArrays -----------------------------
(* Shape operations and slicing of data arrays and datasets as functions of
   their values (P12, P13, P14).  Records as in module Arrays; a dataset is
     [d |-> shape, valid, coords, items |-> [name -> [data, masks]]].          *)
EXTENDS Arrays

(* ---- values of variables ---- *)
\* D-shaped variable made of elements c of v (numbers in row-major order)
PickFrom(v, D, c) ==
    IF v.t = "bin" THEN [v EXCEPT !.d = D, !.ev = [k \in DOMAIN c |-> v.ev[c[k]]]]
    ELSE IF v.t = "vec" THEN [v EXCEPT !.d = D, !.v = [k \in 1..(3 * Len(c)) |-> v.v[3 * (c[(k - 1) \div 3 + 1] - 1) + ((k - 1) % 3) + 1]]]
    ELSE [v EXCEPT !.d = D, !.v = [k \in DOMAIN c |-> v.v[c[k]]], !.w = IF v.hv THEN [k \in DOMAIN c |-> v.w[c[k]]] ELSE <<>>]
\* what is compared: everything but read-only flags and, for coords, alignment
Content(v) == [k \in DOMAIN v \ {"ro", "al"} |-> v[k]]
SameVar(a, b) == Content(a) = Content(b)
SameMap(p, q) == DOMAIN p = DOMAIN q /\ \A n \in DOMAIN p : SameVar(p[n], q[n])
SameAl(p, q) == \A n \in DOMAIN p : p[n].al = q[n].al
\* NaN equals NaN here: values are recorded as tokens
SameArray(a, b) == SameVar(a.data, b.data) /\ SameMap(a.coords, b.coords) /\ SameMap(a.masks, b.masks)

(* ---- what fits ---- *)
\* a coord or mask of shape s fits data of shape S: equal extents, except for
\* one dimension with bin edges or of length 2 not in S
Fits(S, s) ==
    \E sp \in {{}} \cup {{x} : x \in LabelSet(s)} :
       /\ \A x \in LabelSet(s) \ sp : HasDim(S, x) /\ Ext(s, x) = Ext(S, x)
       /\ \A x \in sp : IF HasDim(S, x) THEN Ext(s, x) = Ext(S, x) + 1 ELSE Ext(s, x) = 2
MapFits(S, m) == \A n \in DOMAIN m : Fits(S, m[n].d) /\ m[n].t # "bin"
ArrayFits(a) == MapFits(a.data.d, a.coords) /\ MapFits(a.data.d, a.masks)
EdgesOf(S, v, x) == HasDim(v.d, x) /\ IsEdges(S, v.d, x)
\* the dimension a coord belongs to ("" : none)
DimOf(S, name, v) ==
    IF v.d = <<>> THEN "" ELSE IF Len(v.d) = 1 THEN v.d[1][1]
    ELSE LET e == {i \in DOMAIN v.d : EdgesOf(S, v, v.d[i][1])} IN
         IF e # {} THEN v.d[CHOOSE i \in e : \A j \in e : i <= j][1]
         ELSE IF HasDim(v.d, name) THEN name ELSE ""
MaskDimOf(v) == IF Len(v.d) = 1 THEN v.d[1][1] ELSE ""

(* ---- slicing ---- *)
SliceVar(v, x, b, e, st) == PickFrom(v, SliceShape(v.d, x, b, e, st).v, SliceCells(v.d, Identity(Volume(v.d)), x, b, e, st))
SliceItem(S, v, x, b, e, st) ==
    IF ~HasDim(v.d, x) THEN v
    ELSE IF Ext(v.d, x) = Ext(S, x) THEN SliceVar(v, x, b, e, st)
    ELSE SliceVar(v, x, b, IF e = -1 THEN b + 2 ELSE IF b = e THEN e ELSE e + 1, 1)
SliceMap(S, m, x, b, e, st) == [n \in DOMAIN m |-> SliceItem(S, m[n], x, b, e, st)]
\* coords that become unaligned: a point slice removed their dimension
Lost(S, m, x, e) == {n \in DOMAIN m : e = -1 /\ HasDim(m[n].d, x) /\ DimOf(S, n, m[n]) = x}
SliceCoords(S, m, x, b, e, st) ==
    LET s == SliceMap(S, m, x, b, e, st)  lost == Lost(S, m, x, e)
    IN [n \in DOMAIN s |-> IF n \in lost THEN [s[n] EXCEPT !.al = FALSE] ELSE s[n]]
SliceRefused(S, x, b, e, st) == ~SliceOk(b, e, st) \/ ~SliceShape(S, x, b, e, st).ok
EdgeStride(S, m, x, st) == st # 1 /\ \E n \in DOMAIN m : HasDim(m[n].d, x) /\ Ext(m[n].d, x) # Ext(S, x)
SliceArray(a, x, b, e, st) ==
    LET S == a.data.d IN
    IF SliceRefused(S, x, b, e, st) \/ EdgeStride(S, a.coords, x, st) \/ EdgeStride(S, a.masks, x, st) THEN Refused
    ELSE Ok([data |-> SliceVar(a.data, x, b, e, st), coords |-> SliceCoords(S, a.coords, x, b, e, st), masks |-> SliceMap(S, a.masks, x, b, e, st)])
SliceDataset(d, x, b, e, st) ==
    LET S == d.d IN
    IF SliceRefused(S, x, b, e, st) \/ EdgeStride(S, d.coords, x, st) \/ \E n \in DOMAIN d.items : EdgeStride(S, d.items[n].masks, x, st) THEN Refused
    ELSE Ok([d |-> SliceShape(S, x, b, e, st).v, coords |-> SliceCoords(S, d.coords, x, b, e, st),
             items |-> [n \in DOMAIN d.items |-> [data |-> SliceVar(d.items[n].data, x, b, e, st), masks |-> SliceMap(S, d.items[n].masks, x, b, e, st)]]])
(* By label.  c: the coord, S: shape of the data.  The result is a positional
   slice <<dimension, begin, end>> (end = -1: point) or a refusal.              *)
Sorted(c, asc) == \A i \in 1..(Len(c.v) - 1) : IF asc THEN Leq(c.v[i], c.v[i + 1]) ELSE Leq(c.v[i + 1], c.v[i])
Ordered == {"f8", "f4", "i8", "i4", "dt"}
LabelRefused(c, v) == v.u # c.u \/ v.d # <<>>
Count(q, P(_)) == Len(SelectSeq(q, P))
CanCompare(c, v) == c.t = v.t
PointByLabel(S, c, v) ==
    IF Len(c.d) # 1 \/ LabelRefused(c, v) \/ ~CanCompare(c, v) THEN Refused
    ELSE LET x == c.d[1][1]  q == c.v  y == v.v[1] IN
    IF HasDim(S, x) /\ Len(q) = Ext(S, x) + 1 THEN
        \* the bin that contains the value
        LET asc == Sorted(c, TRUE)
            In(i) == IF asc THEN Leq(q[i], y) /\ Lss(y, q[i + 1]) ELSE Leq(y, q[i]) /\ Lss(q[i + 1], y)
            hit == {i \in 1..(Len(q) - 1) : In(i)}
        IN IF c.t \notin Ordered THEN Refused
           ELSE IF Len(q) > 1 /\ Sorted(c, TRUE) = Sorted(c, FALSE) THEN Refused
           ELSE IF hit = {} THEN Refused ELSE Ok(<<x, (CHOOSE i \in hit : TRUE) - 1, -1>>)
    ELSE IF ~HasDim(S, x) THEN Refused
    ELSE LET hit == {i \in DOMAIN q : q[i] = y /\ ~IsNaN(y)} IN
         IF Cardinality(hit) # 1 THEN Refused ELSE Ok(<<x, (CHOOSE i \in hit : TRUE) - 1, -1>>)
\* begin, end may be absent (nb, ne)
RangeByLabel(S, c, nb, vb, ne, ve) ==
    IF Len(c.d) # 1 \/ c.t \notin Ordered \/ (~nb /\ (LabelRefused(c, vb) \/ ~CanCompare(c, vb))) \/ (~ne /\ (LabelRefused(c, ve) \/ ~CanCompare(c, ve))) THEN Refused
    ELSE LET x == c.d[1][1]  q == c.v  n == IF HasDim(S, x) THEN Ext(S, x) ELSE 0
             edges == Len(q) = n + 1
             single == Len(q) = 1
             asc == single \/ Sorted(c, TRUE)
             Before(a, b) == IF asc THEN Lss(a, b) ELSE Lss(b, a)       \* in the order of the coord
             \* first selected position: points not before begin; with edges the bin containing begin
             below == Count(q, LAMBDA p : Before(p, vb.v[1]))
             upto == Count(q, LAMBDA p : ~Before(vb.v[1], p))
             first == IF nb THEN 0 ELSE IF edges THEN (IF upto = 0 THEN 0 ELSE upto - 1) ELSE below
             \* one past the last: everything before end
             last == IF ne THEN n ELSE LET k == Count(q, LAMBDA p : Before(p, ve.v[1])) IN IF k < n THEN k ELSE n
         IN IF ~HasDim(S, x) \/ (~single /\ Sorted(c, TRUE) = Sorted(c, FALSE)) THEN Refused
            ELSE Ok(<<x, first, last>>)

(* ---- concatenation ---- *)
\* positions of the result: <<input, element>>
ConcatSrc(shapes, x) ==
    LET has == {i \in DOMAIN shapes : HasDim(shapes[i], x)}
        k == IF has = {} THEN 0 ELSE CHOOSE i \in has : \A j \in has : i <= j
        D0 == IF k = 0 THEN << <<x, 1>> >> \o shapes[1] ELSE shapes[k]
        fit == \A i \in DOMAIN shapes : LabelSet(shapes[i]) \cup {x} = LabelSet(D0) /\ \A y \in LabelSet(shapes[i]) \ {x} : Ext(shapes[i], y) = Ext(D0, y)
        \* fewer dimensions: broadcast
        loose == \A i \in DOMAIN shapes : LabelSet(shapes[i]) \subseteq LabelSet(D0) /\ \A y \in LabelSet(shapes[i]) \ {x} : Ext(shapes[i], y) = Ext(D0, y)
        len == [i \in DOMAIN shapes |-> ExtOr1(shapes[i], x)]
        off == [i \in DOMAIN shapes |-> FoldSum(SubSeq(len, 1, i - 1))]
        D == [i \in DOMAIN D0 |-> IF D0[i][1] = x THEN <<x, FoldSum(len)>> ELSE D0[i]]
        jx == PosOf(D, x)
        rd == RowMajor(D)
    IN IF ~loose THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, fit |-> fit, d |-> D, c |-> [q \in 1..Volume(D) |->
             LET p == [i \in DOMAIN D |-> ((q - 1) \div rd[i]) % D[i][2]]
                 m == CHOOSE m \in DOMAIN shapes : off[m] <= p[jx] /\ p[jx] < off[m] + len[m]
                 s == shapes[m]  rs == RowMajor(s)
             IN <<m, 1 + FoldSum([i \in DOMAIN s |-> rs[i] * (IF s[i][1] = x THEN p[jx] - off[m] ELSE p[PosOf(D, s[i][1])])])>>]]
NoElems(v) == IF v.t = "bin" THEN \A k \in DOMAIN v.ev : v.ev[k] = <<>> ELSE Volume(v.d) = 0
Compatible(v, w) ==     \* same kind of elements
    /\ v.t = w.t
    /\ IF v.t = "bin" THEN v.bt = w.bt /\ v.bd = w.bd /\ v.hv = w.hv ELSE v.hv = w.hv
\* columns of events the result has: those of the first input
EvCols(v, w) == [k \in DOMAIN v.cn |-> CHOOSE j \in DOMAIN w.cn : w.cn[j] = v.cn[k]]
ConcatVars(vs, x) ==
    LET src == ConcatSrc([i \in DOMAIN vs |-> vs[i].d], x)  f == vs[1]  m == Comps(f.t) IN
    IF f.t = "bin" /\ \E i \in DOMAIN vs : vs[i].t = "bin" /\ vs[i].hv # f.hv THEN [ok |-> FALSE, unsure |-> TRUE]
    ELSE IF ~src.ok \/ \E i \in DOMAIN vs : ~Compatible(f, vs[i]) THEN Refused
    ELSE IF \E i \in DOMAIN vs : vs[i].u # f.u THEN (IF \E i, j \in DOMAIN vs : vs[i].u # vs[j].u /\ ~NoElems(vs[i]) /\ ~NoElems(vs[j]) THEN Refused ELSE [ok |-> FALSE, unsure |-> TRUE])
    ELSE IF f.t = "bin" THEN (IF \E i \in DOMAIN vs : vs[i].cn # f.cn \/ vs[i].mn # f.mn \/ vs[i].cu # f.cu THEN [ok |-> FALSE, unsure |-> TRUE]
                              ELSE Ok([f EXCEPT !.d = src.d, !.ev = [k \in DOMAIN src.c |-> vs[src.c[k][1]].ev[src.c[k][2]]]]))
    ELSE Ok([f EXCEPT !.d = src.d,
               !.v = IF m = 1 THEN [k \in DOMAIN src.c |-> vs[src.c[k][1]].v[src.c[k][2]]]
                     ELSE [k \in 1..(3 * Len(src.c)) |-> LET s == src.c[(k - 1) \div 3 + 1] IN vs[s[1]].v[3 * (s[2] - 1) + ((k - 1) % 3) + 1]],
               !.w = IF f.hv THEN [k \in DOMAIN src.c |-> vs[src.c[k][1]].w[src.c[k][2]]] ELSE <<>>])
\* outer broadcast along x
AlongX(v, x, n) == IF HasDim(v.d, x) THEN v
                   ELSE LET D == << <<x, n>> >> \o v.d IN PickFrom(v, D, ByLabel(v.d, D))
Unsure(r) == ~r.ok /\ "unsure" \in DOMAIN r
JoinEdges(vs, x) ==
    LET first(v) == SliceVar(v, x, 0, -1, 1)
        last(v) == SliceVar(v, x, Ext(v.d, x) - 1, -1, 1)
        meet == \A i \in 1..(Len(vs) - 1) : Content(last(vs[i])) = Content(first(vs[i + 1])) /\ NaNTok \notin ToSetQ(last(vs[i]).v)
    IN IF \E i \in DOMAIN vs : Ext(vs[i].d, x) = 0 THEN Refused
       ELSE IF ~meet THEN Refused
       ELSE ConcatVars([i \in DOMAIN vs |-> IF i = 1 THEN vs[1] ELSE SliceVar(vs[i], x, 1, Ext(vs[i].d, x), 1)], x)
\* one coord or mask of the result; Ss: shapes of the inputs
ConcatItem(Ss, vs, along, x) ==
    LET edge == [i \in DOMAIN vs |-> IsEdges(Ss[i], vs[i].d, x) /\ HasDim(vs[i].d, x)] IN
    IF along THEN
        IF \E i, j \in DOMAIN vs : edge[i] # edge[j] THEN Refused
        ELSE IF edge[1] THEN JoinEdges(vs, x) ELSE ConcatVars(vs, x)
    ELSE IF (\A i \in DOMAIN vs : ~HasDim(vs[i].d, x)) /\ \A i \in DOMAIN vs : Content(vs[i]) = Content(vs[1]) THEN Ok(vs[1])
    ELSE IF \E i \in DOMAIN vs : HasDim(vs[i].d, x) /\ Ext(vs[i].d, x) # ExtOr1(Ss[i], x) THEN Refused
    ELSE ConcatVars([i \in DOMAIN vs |-> AlongX(vs[i], x, ExtOr1(Ss[i], x))], x)
ConcatMaps(Ss, ms, x, Along(_)) ==
    LET f == ms[1] IN
    IF \E n \in DOMAIN f : \E i \in DOMAIN ms : n \notin DOMAIN ms[i] THEN Refused
    ELSE LET r == [n \in DOMAIN f |-> ConcatItem(Ss, [i \in DOMAIN ms |-> ms[i][n]], Along(n), x)] IN
         IF \E n \in DOMAIN r : Unsure(r[n]) THEN [ok |-> FALSE, unsure |-> TRUE]
         ELSE IF \E n \in DOMAIN r : ~r[n].ok THEN Refused ELSE Ok([n \in DOMAIN r |-> r[n].v])
ConcatArrays(as, x) ==
    LET Ss == [i \in DOMAIN as |-> as[i].data.d]
        d == ConcatVars([i \in DOMAIN as |-> as[i].data], x)
        c == ConcatMaps(Ss, [i \in DOMAIN as |-> as[i].coords], x, LAMBDA n : DimOf(Ss[1], n, as[1].coords[n]) = x)
        m == ConcatMaps(Ss, [i \in DOMAIN as |-> as[i].masks], x, LAMBDA n : MaskDimOf(as[1].masks[n]) = x)
    IN IF (~d.ok /\ ~Unsure(d)) \/ (~c.ok /\ ~Unsure(c)) \/ (~m.ok /\ ~Unsure(m)) THEN Refused
       ELSE IF Unsure(d) \/ Unsure(c) \/ Unsure(m) THEN [ok |-> FALSE, unsure |-> TRUE]
       ELSE IF ~MapFits(d.v.d, c.v) \/ ~MapFits(d.v.d, m.v) THEN Refused
       ELSE Ok([data |-> d.v, coords |-> c.v, masks |-> m.v])

(* ---- fold ---- *)
\* neighbouring cells share an edge
FoldEdges(v, x, to) ==
    LET inner == to[Len(to)][1]
        T == [to EXCEPT ![Len(to)] = <<inner, to[Len(to)][2] + 1>>]
        j == PosOf(v.d, x)
        D == SubSeq(v.d, 1, j - 1) \o T \o Suffix(v.d, j + 1)
        n == Len(to)
        rt == RowMajor(to)
    IN IF ~NoDup(Labels(D)) \/ Volume(to) # Ext(v.d, x) - 1 THEN Refused
       ELSE Ok(PickFrom(v, D, Gather(v.d, Identity(Volume(v.d)), D,
                 LAMBDA p, i : IF i < j THEN p[i] ELSE IF i > j THEN p[i + n - 1] ELSE FoldSum([k \in DOMAIN to |-> rt[k] * p[j + k - 1]]))))
FoldItem(S, v, x, to) ==
    IF IsEdges(S, v.d, x) /\ HasDim(v.d, x) THEN (IF to = <<>> THEN Refused ELSE FoldEdges(v, x, to))
    ELSE IF HasDim(v.d, x) THEN LET r == Fold(v.d, x, to) IN IF r.ok THEN Ok([v EXCEPT !.d = r.v]) ELSE Refused
    ELSE Ok(v)
MapOps(m, F(_)) == LET r == [n \in DOMAIN m |-> F(m[n])] IN
    IF \E n \in DOMAIN r : ~r[n].ok THEN Refused ELSE Ok([n \in {n \in DOMAIN r : r[n].v # <<>>} |-> r[n].v])
FoldArray(a, x, to) ==
    LET S == a.data.d  d == Fold(S, x, to)
        c == MapOps(a.coords, LAMBDA v : FoldItem(S, v, x, to))
        m == MapOps(a.masks, LAMBDA v : FoldItem(S, v, x, to))
    IN IF ~d.ok THEN Refused
       ELSE IF ~c.ok \/ ~m.ok THEN Refused
       ELSE IF ~MapFits(d.v, c.v) \/ ~MapFits(d.v, m.v) THEN Refused
       ELSE Ok([data |-> [a.data EXCEPT !.d = d.v], coords |-> c.v, masks |-> m.v])

(* ---- flatten ---- *)
\* v with all of labs, brought next to each other; extents of S for those it lacks
RECURSIVE SpreadDims(_, _, _, _)
SpreadDims(S, s, labs, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i][1] \notin ToSetQ(labs) THEN <<s[i]>> \o SpreadDims(S, s, labs, i + 1)
    ELSE IF \E j \in 1..(i - 1) : s[j][1] \in ToSetQ(labs) THEN SpreadDims(S, s, labs, i + 1)
    ELSE [k \in DOMAIN labs |-> <<labs[k], IF HasDim(s, labs[k]) THEN Ext(s, labs[k]) ELSE Ext(S, labs[k])>>] \o SpreadDims(S, s, labs, i + 1)
Spread(S, v, labs) == LET D == SpreadDims(S, v.d, labs, 1) IN PickFrom(v, D, ByLabel(v.d, D))
FlatVar(v, labs, to) == LET r == FlattenShape(v.d, labs, to) IN IF r.ok THEN Ok([v EXCEPT !.d = r.v]) ELSE Refused
\* <<>> as value: the coord is left out
FlattenEdges(v, labs, to, e) ==
    LET n == Ext(v.d, e)
        lo == FlatVar(SliceVar(v, e, 0, n - 1, 1), labs, to)
        hi == FlatVar(SliceVar(v, e, 1, n, 1), labs, to)
        m == Ext(lo.v.d, to)
        joined == SliceVar(lo.v, to, 1, m, 1) = SliceVar(hi.v, to, 0, m - 1, 1)
                  /\ NaNTok \notin ToSetQ(SliceVar(lo.v, to, 1, m, 1).v)
    IN IF ~lo.ok THEN Refused
       ELSE IF Len(labs) = 1 THEN Ok([v EXCEPT !.d = [i \in DOMAIN v.d |-> IF v.d[i][1] = e THEN <<to, v.d[i][2]>> ELSE v.d[i]]])
       ELSE IF m = 0 \/ ~joined THEN Ok(<<>>)
       ELSE ConcatVars(<<lo.v, SliceVar(hi.v, to, m - 1, m, 1)>>, to)
FlattenItem(S, v, labs, to) ==
    IF labs = <<>> /\ S = <<>> THEN FlatVar(v, labs, to)
    ELSE IF LabelSet(v.d) \cap ToSetQ(labs) = {} THEN Ok(v)
    ELSE LET es == {i \in DOMAIN labs : EdgesOf(S, v, labs[i])} IN
         IF es # {} THEN FlattenEdges(Spread(S, v, labs), labs, to, labs[CHOOSE i \in es : TRUE])
         ELSE FlatVar(Spread(S, v, labs), labs, to)
FlattenArray(a, all, labs0, to) ==
    LET S == a.data.d  labs == IF all THEN Labels(S) ELSE labs0 IN
    IF ~all /\ labs = <<>> THEN
        LET r == FlatVar(a.data, labs, to) IN
        IF ~r.ok \/ ~MapFits(r.v.d, a.coords) \/ ~MapFits(r.v.d, a.masks) THEN Refused ELSE Ok([data |-> r.v, coords |-> a.coords, masks |-> a.masks])
    ELSE IF ~(ToSetQ(labs) \subseteq LabelSet(S)) THEN Refused
    ELSE LET d == FlatVar(a.data, labs, to)
             c == MapOps(a.coords, LAMBDA v : FlattenItem(S, v, labs, to))
             m == MapOps(a.masks, LAMBDA v : FlattenItem(S, v, labs, to))
         IN IF ~d.ok THEN Refused
            ELSE IF ~c.ok \/ ~m.ok THEN Refused
            ELSE IF ~MapFits(d.v.d, c.v) \/ ~MapFits(d.v.d, m.v) THEN Refused
            ELSE Ok([data |-> d.v, coords |-> c.v, masks |-> m.v])

(* ---- transpose, squeeze, rename ---- *)
TransposeVar(v, D) == PickFrom(v, D, ByLabel(v.d, D))
TransposeArray(a, labs) ==
    LET r == Transpose(a.data.d, labs) IN IF ~r.ok THEN Refused ELSE Ok([a EXCEPT !.data = TransposeVar(a.data, r.v)])
\* the point slices at 0 along each of xs
RECURSIVE SliceAway(_, _)
SliceAway(a, xs) ==
    IF xs = <<>> THEN Ok(a)
    ELSE LET r == IF "items" \in DOMAIN a THEN SliceDataset(a, xs[1], 0, -1, 1) ELSE SliceArray(a, xs[1], 0, -1, 1)
         IN IF ~r.ok THEN Refused ELSE SliceAway(r.v, Tail(xs))
ToSqueeze(S, all, labs) == IF all THEN Labels(SelectSeq(S, LAMBDA e : e[2] = 1)) ELSE labs
SqueezeRefused(S, labs) == \E i \in DOMAIN labs : ~HasDim(S, labs[i]) \/ Ext(S, labs[i]) # 1
SqueezeArray(a, all, labs) ==
    LET q == ToSqueeze(a.data.d, all, labs) IN
    IF SqueezeRefused(a.data.d, q) THEN Refused ELSE SliceAway(a, q)
SqueezeDataset(d, all, labs) ==
    LET q == ToSqueeze(d.d, all, labs) IN
    IF SqueezeRefused(d.d, q) THEN Refused ELSE SliceAway(d, q)
\* leftover edge dimensions are never captured
RenameItem(S, v, p) ==
    IF \E i \in DOMAIN p : ~HasDim(S, p[i][2]) /\ HasDim(v.d, p[i][2]) THEN Refused
    ELSE LET r == Rename(v.d, p, FALSE) IN IF r.ok THEN Ok([v EXCEPT !.d = r.v]) ELSE Refused
RenameArray(a, p) ==
    LET S == a.data.d  d == Rename(S, p, TRUE)
        c == MapOps(a.coords, LAMBDA v : RenameItem(S, v, p))
        m == MapOps(a.masks, LAMBDA v : RenameItem(S, v, p))
    IN IF ~d.ok \/ ~c.ok \/ ~m.ok THEN Refused ELSE Ok([data |-> [a.data EXCEPT !.d = d.v], coords |-> c.v, masks |-> m.v])
=============================================================================
