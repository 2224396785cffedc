-------------------------------- MODULE Meta --------------------------------
(* P13.  Data arrays and datasets as objects that refer to shared cells, under
   histories of metadata and item operations.

   State  [B, D, M, C, H]:
     B  buffers (sequences of numbers)
     D  data cells: a variable each            (shared by views)
     M  mask dicts  [it |-> [name -> variable], ro]   (shared by views)
     C  coord dicts [it |-> [name -> variable], ro]
     H  handles: name -> object
   variable [b |-> buffer, s |-> labelled shape, c |-> cells, ro |-> read-only, al |-> aligned]
   data array [k |-> "da", dat, co, ma |-> cell numbers, ro, nm |-> possible names]
   dataset    [k |-> "ds", sz |-> shape, co, it |-> [name -> [dat, ma]], ro]
   An operation is a record e; Outcomes(S, e) is the set of allowed [ok, S].  *)
EXTENDS Views

Empty == [B |-> <<>>, D |-> <<>>, M |-> <<>>, C |-> <<>>, H |-> <<>>]
Res(S) == {[ok |-> TRUE, S |-> S]}
Ref(S) == {[ok |-> FALSE, S |-> S]}
NoItems == [n \in {} |-> 0]
Drop(f, ns) == [n \in DOMAIN f \ ns |-> f[n]]
MapF(f, Op(_)) == [n \in DOMAIN f |-> Op(f[n])]

(* ---- variables ---- *)
VarVals(B, v) == [k \in DOMAIN v.c |-> B[v.b][v.c[k]]]
VarObs(B, v) == [d |-> v.s, v |-> VarVals(B, v), ro |-> v.ro]
SameVar(a, b) == a.b = b.b /\ a.s = b.s /\ a.c = b.c
MaybeSame(a, b) == a.b = b.b /\ a.s = b.s /\ a.c = <<>> /\ b.c = <<>>
EqVar(B, a, b) == a.s = b.s /\ VarVals(B, a) = VarVals(B, b)
Const(v) == [v EXCEPT !.ro = TRUE]
CutOk(v, x, b, e) == SliceOk(b, e, 1) /\ SliceShape(v.s, x, b, e, 1).ok
Cut(v, x, b, e) == [v EXCEPT !.s = SliceShape(v.s, x, b, e, 1).v, !.c = SliceCells(v.s, v.c, x, b, e, 1)]
WriteVar(B, v, new) == [B EXCEPT ![v.b] = Store(@, v.c, new)]

(* ---- what fits: at most one extra element along one dimension ---- *)
FitsDim(sz, p) == HasDim(sz, p[1]) /\ Ext(sz, p[1]) = p[2]
EdgeDim(sz, p) == IF HasDim(sz, p[1]) THEN p[2] = Ext(sz, p[1]) + 1 ELSE p[2] = 2
Fits(sz, s) == \A i \in DOMAIN s : FitsDim(sz, s[i]) \/ (EdgeDim(sz, s[i]) /\ \A j \in DOMAIN s : j = i \/ FitsDim(sz, s[j]))
\* the dimension a coord belongs to
CoordDim(sz, key, s) ==
    IF s = <<>> THEN Invalid ELSE IF Len(s) = 1 THEN s[1][1]
    ELSE LET es == SelectSeq(Labels(s), LAMBDA x : IsEdges(sz, s, x)) IN
         IF es # <<>> THEN es[1] ELSE IF HasDim(s, key) THEN key ELSE Invalid

(* ---- cells and objects ---- *)
PutDA(S, h, data, cs, cro, ms, mro, ro, nm) ==
    [S EXCEPT !.D = Append(@, data), !.C = Append(@, [it |-> cs, ro |-> cro]), !.M = Append(@, [it |-> ms, ro |-> mro]),
              !.H = Put(@, h, [k |-> "da", dat |-> Len(S.D) + 1, co |-> Len(S.C) + 1, ma |-> Len(S.M) + 1, ro |-> ro, nm |-> nm])]
\* its: name -> [data, masks, mro], as a sequence of names q
RECURSIVE PutItems(_, _, _)
PutItems(S, q, its) ==      \* [S, refs]
    IF q = <<>> THEN [S |-> S, refs |-> NoItems]
    ELSE LET n == Head(q)
             S1 == [S EXCEPT !.D = Append(@, its[n].data), !.M = Append(@, [it |-> its[n].masks, ro |-> its[n].mro])]
             r == PutItems(S1, Tail(q), its)
         IN [S |-> r.S, refs |-> Put(r.refs, n, [dat |-> Len(S.D) + 1, ma |-> Len(S.M) + 1])]
RECURSIVE AsSeq(_)
AsSeq(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o AsSeq(T \ {x})
PutDS(S, h, sz, cs, cro, its, ro) ==
    LET S1 == [S EXCEPT !.C = Append(@, [it |-> cs, ro |-> cro])]
        r == PutItems(S1, AsSeq(DOMAIN its), its)
    IN [r.S EXCEPT !.H = Put(@, h, [k |-> "ds", sz |-> sz, co |-> Len(S.C) + 1, it |-> r.refs, ro |-> ro])]
IsDA(o) == o.k = "da"
DataOf(S, o) == S.D[o.dat]
SizesOf(S, o) == IF IsDA(o) THEN DataOf(S, o).s ELSE o.sz
CoordsOf(S, o) == S.C[o.co].it
MasksOf(S, o) == S.M[o.ma].it
ItemsOf(S, o) == [n \in DOMAIN o.it |-> [data |-> S.D[o.it[n].dat], masks |-> S.M[o.it[n].ma].it, mro |-> FALSE]]

(* ---- dicts ---- *)
CutDict(f, sz, x, b, e, coords) ==
    [n \in DOMAIN f |->
       LET v == f[n] IN
       IF ~HasDim(v.s, x) THEN Const(v)
       ELSE LET w == IF Ext(v.s, x) = Ext(sz, x) THEN Cut(v, x, b, e)
                     ELSE Cut(v, x, b, IF e = -1 THEN b + 2 ELSE IF b = e THEN e ELSE e + 1)
            IN IF coords /\ e = -1 /\ CoordDim(sz, n, v.s) = x THEN [w EXCEPT !.al = FALSE] ELSE w]
DictRenameOk(f, sz, p) == \A n \in DOMAIN f :
    /\ \A i \in DOMAIN p : HasDim(sz, p[i][2]) \/ ~HasDim(f[n].s, p[i][2])
    /\ Rename(f[n].s, p, FALSE).ok
DictRename(f, p) == [n \in DOMAIN f |-> [f[n] EXCEPT !.s = Rename(@, p, FALSE).v]]
EqDict(B, f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : EqVar(B, f[n], g[n]) /\ f[n].al = g[n].al

(* ---- the variable argument e.var: fresh, or taken from an object ---- *)
TakeVar(S, a) ==        \* [S, v]
    LET con(v) == IF a.const THEN Const(v) ELSE v IN
    IF a.k = "new" THEN [S |-> [S EXCEPT !.B = Append(@, a.v)],
                         v |-> con([b |-> Len(S.B) + 1, s |-> a.s, c |-> Identity(Len(a.v)), ro |-> FALSE, al |-> TRUE])]
    ELSE IF a.k = "bcast" THEN [S |-> [S EXCEPT !.B = Append(@, a.v)],     \* a scalar, broadcast
                         v |-> [b |-> Len(S.B) + 1, s |-> a.s, c |-> [i \in 1..Volume(a.s) |-> 1], ro |-> TRUE, al |-> TRUE]]
    ELSE [S |-> S, v |-> con(CASE a.k = "data" -> DataOf(S, S.H[a.g])
                               [] a.k = "coord" -> CoordsOf(S, S.H[a.g])[a.n]
                               [] a.k = "mask" -> MasksOf(S, S.H[a.g])[a.n])]
RECURSIVE TakeVars(_, _, _)
TakeVars(S, q, args) ==      \* [S, f]
    IF q = <<>> THEN [S |-> S, f |-> NoItems]
    ELSE LET t == TakeVar(S, args[Head(q)])  r == TakeVars(t.S, Tail(q), args)
         IN [S |-> r.S, f |-> Put(r.f, Head(q), t.v)]

(* ---- making objects ---- *)
NewDA(S, e) ==
    LET d == TakeVar(S, e.data)
        c == TakeVars(d.S, AsSeq(DOMAIN e.coords), e.coords)
        m == TakeVars(c.S, AsSeq(DOMAIN e.masks), e.masks)
    IN IF \A n \in DOMAIN c.f : Fits(d.v.s, c.f[n].s) THEN
         IF \A n \in DOMAIN m.f : Fits(d.v.s, m.f[n].s) THEN Res(PutDA(m.S, e.h, d.v, c.f, FALSE, m.f, FALSE, FALSE, {e.nm})) ELSE Ref(S)
       ELSE Ref(S)
NewDS(S, e) ==
    LET c == TakeVars(S, AsSeq(DOMAIN e.coords), e.coords) IN
    IF \A n \in DOMAIN c.f : Fits(e.s, c.f[n].s) THEN Res(PutDS(c.S, e.h, e.s, c.f, FALSE, NoItems, FALSE)) ELSE Ref(S)
\* shallow copy: metadata can be changed, elements are shared
CopyObj(S, h, o) ==
    IF IsDA(o) THEN PutDA(S, h, DataOf(S, o), CoordsOf(S, o), FALSE, MasksOf(S, o), FALSE, FALSE, o.nm)
    ELSE PutDS(S, h, o.sz, CoordsOf(S, o), FALSE, ItemsOf(S, o), FALSE)
\* fresh variables with the same content
Fresh(S, v) == [S |-> [S EXCEPT !.B = Append(@, VarVals(S.B, v))],
                v |-> [b |-> Len(S.B) + 1, s |-> v.s, c |-> Identity(Len(v.c)), ro |-> FALSE, al |-> v.al]]
RECURSIVE FreshDict(_, _, _)
FreshDict(S, q, f) == IF q = <<>> THEN [S |-> S, f |-> NoItems]
    ELSE LET t == Fresh(S, f[Head(q)])  r == FreshDict(t.S, Tail(q), f) IN [S |-> r.S, f |-> Put(r.f, Head(q), t.v)]
RECURSIVE FreshItems(_, _, _)
FreshItems(S, q, its) == IF q = <<>> THEN [S |-> S, f |-> NoItems]
    ELSE LET n == Head(q)  d == Fresh(S, its[n].data)
             m == FreshDict(d.S, AsSeq(DOMAIN its[n].masks), its[n].masks)
             r == FreshItems(m.S, Tail(q), its)
         IN [S |-> r.S, f |-> Put(r.f, n, [data |-> d.v, masks |-> m.f, mro |-> FALSE])]
DeepObj(S, h, o) ==
    LET c == FreshDict(S, AsSeq(DOMAIN CoordsOf(S, o)), CoordsOf(S, o)) IN
    IF IsDA(o) THEN LET d == Fresh(c.S, DataOf(S, o))
                        m == FreshDict(d.S, AsSeq(DOMAIN MasksOf(S, o)), MasksOf(S, o))
                    IN PutDA(m.S, h, d.v, c.f, FALSE, m.f, FALSE, FALSE, o.nm)
    ELSE LET i == FreshItems(c.S, AsSeq(DOMAIN o.it), ItemsOf(S, o)) IN PutDS(i.S, h, o.sz, c.f, FALSE, i.f, FALSE)
\* another reference to the same data and dicts
ViewObj(S, h, o) == [S EXCEPT !.H = Put(@, h, [o EXCEPT !.ro = FALSE])]
\* an item shares data and masks; the dataset's coords cannot be changed through it
ItemObj(S, h, o, n) ==
    LET dims == LabelSet(S.D[o.it[n].dat].s)
        f == CoordsOf(S, o)
        keep == {c \in DOMAIN f : LabelSet(f[c].s) \subseteq dims}
    IN [S EXCEPT !.C = Append(@, [it |-> [c \in keep |-> Const(f[c])], ro |-> TRUE]),
                 !.H = Put(@, h, [k |-> "da", dat |-> o.it[n].dat, co |-> Len(S.C) + 1, ma |-> o.it[n].ma, ro |-> o.ro, nm |-> {n}])]
\* nothing can be inserted, erased or replaced in a slice
CutObjOk(S, o, x, b, e) == SliceOk(b, e, 1) /\ SliceShape(SizesOf(S, o), x, b, e, 1).ok
CutItems(S, o, x, b, e) == [n \in DOMAIN o.it |->
    [data |-> Cut(S.D[o.it[n].dat], x, b, e), masks |-> CutDict(S.M[o.it[n].ma].it, o.sz, x, b, e, FALSE), mro |-> TRUE]]
CutObj(S, h, o, x, b, e) ==
    LET cs == CutDict(CoordsOf(S, o), SizesOf(S, o), x, b, e, TRUE) IN
    IF IsDA(o) THEN PutDA(S, h, Cut(DataOf(S, o), x, b, e), cs, TRUE, CutDict(MasksOf(S, o), SizesOf(S, o), x, b, e, FALSE), TRUE, TRUE, o.nm)
    ELSE PutDS(S, h, SliceShape(o.sz, x, b, e, 1).v, cs, TRUE, CutItems(S, o, x, b, e), TRUE)
RECURSIVE Squeezed(_, _, _)
Squeezed(S, h, q) == IF q = <<>> THEN CopyObj(S, h, S.H[h]) ELSE Squeezed(CutObj(S, h, S.H[h], Head(q), 0, -1), h, Tail(q))
SqueezeObj(S, e, o) ==
    LET sz == SizesOf(S, o)
        q == IF e.all THEN SelectSeq(Labels(sz), LAMBDA x : Ext(sz, x) = 1) ELSE e.xs IN
    IF \E i \in DOMAIN q : ~HasDim(sz, q[i]) \/ Ext(sz, q[i]) # 1 THEN Ref(S)
    ELSE Res(LET r == Squeezed([S EXCEPT !.H = Put(@, e.h, o)], e.h, q) IN r)
RenameObj(S, h, o, p) ==
    LET sz == SizesOf(S, o)  cs == CoordsOf(S, o) IN
    IF ~Rename(sz, p, TRUE).ok \/ ~DictRenameOk(cs, sz, p) THEN Ref(S)
    ELSE IF IsDA(o) THEN IF ~DictRenameOk(MasksOf(S, o), sz, p) THEN Ref(S)
                         ELSE Res(PutDA(S, h, [DataOf(S, o) EXCEPT !.s = Rename(@, p, TRUE).v], DictRename(cs, p), FALSE,
                                        DictRename(MasksOf(S, o), p), FALSE, FALSE, o.nm \cup {""}))
    ELSE LET its == ItemsOf(S, o) IN
         IF \E n \in DOMAIN its : ~DictRenameOk(its[n].masks, sz, p) THEN Ref(S)
         ELSE Res(PutDS(S, h, Rename(sz, p, TRUE).v, DictRename(cs, p), FALSE,
                  [n \in DOMAIN its |-> [data |-> [its[n].data EXCEPT !.s = Rename(@, p, FALSE).v], masks |-> DictRename(its[n].masks, p), mro |-> FALSE]], FALSE))
TransposeObj(S, h, o, labs) ==
    LET d == DataOf(S, o)  t == Transpose(d.s, labs) IN
    IF ~t.ok THEN Ref(S)
    ELSE Res(PutDA(S, h, [d EXCEPT !.s = t.v, !.c = LET at == ByLabel(d.s, t.v) IN [k \in DOMAIN at |-> @[at[k]]]],
                   CoordsOf(S, o), FALSE, MasksOf(S, o), FALSE, FALSE, o.nm))
ConstObj(S, h, o) == PutDA(S, h, Const(DataOf(S, o)), MapF(CoordsOf(S, o), Const), TRUE, MapF(MasksOf(S, o), Const), TRUE, TRUE, o.nm)

(* ---- changing objects ---- *)
\* setting in a dict: refused if read-only, unless it is the same variable
DictSet(S, ro, f, sz, n, v) ==      \* set of [ok, f]
    LET set == IF ro \/ ~Fits(sz, v.s) THEN [ok |-> FALSE, f |-> f] ELSE [ok |-> TRUE, f |-> Put(f, n, v)] IN
    IF n \in DOMAIN f /\ SameVar(f[n], v) THEN {[ok |-> TRUE, f |-> f]} \cup (IF v.c = <<>> THEN {set} ELSE {})
    ELSE {set}
SetCoord(S, e, o) ==
    LET t == TakeVar(S, e.var) IN
    UNION {IF r.ok THEN Res([t.S EXCEPT !.C[o.co].it = r.f]) ELSE Ref(S) : r \in
        (IF e.via = "ds" /\ o.ro THEN {[ok |-> FALSE]} ELSE DictSet(t.S, S.C[o.co].ro, CoordsOf(S, o), SizesOf(S, o), e.n, t.v))}
SetMask(S, e, o) ==
    LET t == TakeVar(S, e.var) IN
    UNION {IF r.ok THEN Res([t.S EXCEPT !.M[o.ma].it = r.f]) ELSE Ref(S) : r \in DictSet(t.S, S.M[o.ma].ro, MasksOf(S, o), SizesOf(S, o), e.n, t.v)}
DelCoord(S, e, o) == IF S.C[o.co].ro \/ e.n \notin DOMAIN CoordsOf(S, o) THEN Ref(S) ELSE Res([S EXCEPT !.C[o.co].it = Drop(@, {e.n})])
DelMask(S, e, o) == IF S.M[o.ma].ro \/ e.n \notin DOMAIN MasksOf(S, o) THEN Ref(S) ELSE Res([S EXCEPT !.M[o.ma].it = Drop(@, {e.n})])
Align(S, e, o) == IF S.C[o.co].ro \/ e.n \notin DOMAIN CoordsOf(S, o) THEN Ref(S) ELSE Res([S EXCEPT !.C[o.co].it[e.n].al = e.al])
DropObj(S, e, o) ==
    IF e.kind = "coord" THEN IF ToSetQ(e.ns) \subseteq DOMAIN CoordsOf(S, o) /\ NoDup(e.ns)
        THEN LET r == CopyObj(S, e.h, o) IN Res([r EXCEPT !.C[r.H[e.h].co].it = Drop(@, ToSetQ(e.ns))]) ELSE Ref(S)
    ELSE IF ToSetQ(e.ns) \subseteq DOMAIN MasksOf(S, o) /\ NoDup(e.ns)
        THEN LET r == CopyObj(S, e.h, o) IN Res([r EXCEPT !.M[r.H[e.h].ma].it = Drop(@, ToSetQ(e.ns))]) ELSE Ref(S)
SetData(S, e, o) ==
    LET t == TakeVar(S, e.var)
        set == IF o.ro \/ ~SameUnordered(DataOf(S, o).s, t.v.s) THEN Ref(S) ELSE Res([t.S EXCEPT !.D[o.dat] = t.v]) IN
    IF SameVar(DataOf(S, o), t.v) THEN Res(S) \cup (IF t.v.c = <<>> THEN set ELSE {}) ELSE set
\* new item, replacing an old one; views of the old one keep it
WithItem(S, e, n, data, masks, mro) ==
    [S EXCEPT !.D = Append(@, data), !.M = Append(@, [it |-> masks, ro |-> mro]),
              !.H[e.h].it = Put(@, n, [dat |-> Len(S.D) + 1, ma |-> Len(S.M) + 1])]
DsSet(S, e, o) ==
    LET t == TakeVar(S, e.var) IN
    IF o.ro \/ ~SameUnordered(o.sz, t.v.s) THEN Ref(S) ELSE Res(WithItem(t.S, e, e.n, t.v, NoItems, FALSE))
DsSetDA(S, e, o) ==
    LET g == S.H[e.g]  d == DataOf(S, g)  ms == MasksOf(S, g)
        cs == CoordsOf(S, o)  gs == CoordsOf(S, g)
        dims == LabelSet(d.s)
        here == e.n \in DOMAIN o.it
        seen == [c \in {c \in DOMAIN cs : LabelSet(cs[c].s) \subseteq dims} |-> cs[c]]     \* coords of the item
        same == here /\ SameVar(S.D[o.it[e.n].dat], d) /\ EqDict(S.B, S.M[o.it[e.n].ma].it, ms) /\ EqDict(S.B, seen, gs)
        clash == \E c \in DOMAIN cs \cap DOMAIN gs : cs[c].al = gs[c].al /\ ~EqVar(S.B, cs[c], gs[c])
        new == DOMAIN gs \ DOMAIN cs
        done(mro) == LET r == WithItem(S, e, e.n, d, ms, mro) IN
                     [r EXCEPT !.C[o.co].it = [c \in DOMAIN cs \cup new |-> IF c \in new THEN gs[c] ELSE cs[c]]]
    IN IF same THEN Res(S) \cup (IF d.c = <<>> /\ ~o.ro THEN Res(done(FALSE)) ELSE {})
       ELSE IF clash \/ o.ro \/ ~SameUnordered(o.sz, d.s) THEN Ref(S)
       \* whether masks of an item made from a slice can be changed is not specified
       ELSE Res(done(FALSE)) \cup Res(done(S.M[g.ma].ro))
DsErase(S, e, o) == IF o.ro \/ e.n \notin DOMAIN o.it THEN Ref(S) ELSE Res([S EXCEPT !.H[e.h].it = Drop(@, {e.n})])
DsExtract(S, e, o) == IF o.ro \/ e.n \notin DOMAIN o.it THEN Ref(S)
    ELSE LET r == ItemObj(S, e.to, o, e.n) IN Res(IF e.to = e.h THEN r ELSE [r EXCEPT !.H[e.h].it = Drop(@, {e.n})])
DsClear(S, e, o) == IF o.ro THEN Ref(S) ELSE Res([S EXCEPT !.H[e.h].it = NoItems])
WriteEl(S, e, o) ==
    LET v == CASE e.kind = "data" -> DataOf(S, o) [] e.kind = "coord" -> CoordsOf(S, o)[e.n] [] e.kind = "mask" -> MasksOf(S, o)[e.n] IN
    IF v.ro \/ e.i \notin DOMAIN v.c THEN Ref(S) ELSE Res([S EXCEPT !.B[v.b][v.c[e.i]] = e.val])

(* ---- assigning to a slice (from an object that shares nothing with it) ---- *)
Superset(B, a, b) == \A n \in DOMAIN b : IF n \in DOMAIN a THEN ~(a[n].al /\ b[n].al) \/ EqVar(B, a[n], b[n]) ELSE ~b[n].al
PartMask(m, x, b, e) == IF HasDim(m.s, x) THEN Cut(m, x, b, e) ELSE m
MaskWritable(m, x) == ~m.ro /\ HasDim(m.s, x)
MasksTake(B, ms, src, x, b, e) == \A n \in DOMAIN src :
    /\ n \in DOMAIN ms
    /\ IF MaskWritable(ms[n], x) THEN Includes(Cut(ms[n], x, b, e).s, src[n].s) ELSE EqVar(B, PartMask(ms[n], x, b, e), src[n])
DataTakes(d, sd, x, b, e) == CutOk(d, x, b, e) /\ ~d.ro /\ Includes(Cut(d, x, b, e).s, sd.s)
Spread(B, src, D) == LET at == ByLabel(src.s, D) IN [k \in DOMAIN at |-> VarVals(B, src)[at[k]]]
PutPart(B, v, src, vals, x, b, e) == LET w == Cut(v, x, b, e) IN WriteVar(B, w, Spread(vals, src, w.s))
RECURSIVE PutMasks(_, _, _, _, _, _, _, _)
PutMasks(B, q, ms, src, old, x, b, e) == IF q = <<>> THEN B
    ELSE LET n == Head(q) IN PutMasks(IF MaskWritable(ms[n], x) THEN PutPart(B, ms[n], src[n], old, x, b, e) ELSE B, Tail(q), ms, src, old, x, b, e)
PutArr(B, data, ms, sd, src, old, x, b, e) == PutMasks(PutPart(B, data, sd, old, x, b, e), AsSeq(DOMAIN src), ms, src, old, x, b, e)
RECURSIVE PutAll(_, _, _, _, _, _, _, _)
PutAll(B, q, its, from, old, x, b, e) == IF q = <<>> THEN B
    ELSE LET n == Head(q) IN PutAll(PutArr(B, its[n].data, its[n].masks, from[n].data, from[n].masks, old, x, b, e), Tail(q), its, from, old, x, b, e)
SetSliceOp(S, e, o) ==
    LET x == e.x  cs == CoordsOf(S, o)  its == IF IsDA(o) THEN [n \in {"it"} |-> [data |-> DataOf(S, o), masks |-> MasksOf(S, o)]] ELSE ItemsOf(S, o) IN
    IF ~CutObjOk(S, o, x, e.b, e.e) THEN Ref(S) \cup (IF DOMAIN its = {} THEN Res(S) ELSE {})     \* nothing to assign to
    ELSE IF e.var.k # "none" THEN
        LET t == TakeVar(S, e.var)  from == [n \in DOMAIN its |-> [data |-> t.v, masks |-> NoItems]] IN
        IF \A n \in DOMAIN its : DataTakes(its[n].data, t.v, x, e.b, e.e)
        THEN Res([S EXCEPT !.B = PutAll(S.B, AsSeq(DOMAIN its), its, from, t.S.B, x, e.b, e.e)])
        ELSE Ref(S)
    ELSE LET g == S.H[e.g]
             from == IF IsDA(g) THEN [n \in DOMAIN its |-> [data |-> DataOf(S, g), masks |-> MasksOf(S, g)]] ELSE ItemsOf(S, g)
         IN IF /\ Superset(S.B, CutDict(cs, SizesOf(S, o), x, e.b, e.e, TRUE), CoordsOf(S, g))
               /\ \A n \in DOMAIN its : n \in DOMAIN from
               /\ \A n \in DOMAIN its : DataTakes(its[n].data, from[n].data, x, e.b, e.e) /\ MasksTake(S.B, its[n].masks, from[n].masks, x, e.b, e.e)
            THEN Res([S EXCEPT !.B = PutAll(S.B, AsSeq(DOMAIN its), its, from, S.B, x, e.b, e.e)])
            ELSE Ref(S)

Outcomes(S, e) ==
    LET o == IF e.op \in {"da", "ds"} THEN [k |-> "none"] ELSE S.H[IF "from" \in DOMAIN e THEN e.from ELSE e.h] IN
    CASE e.op = "da" -> NewDA(S, e)
      [] e.op = "ds" -> NewDS(S, e)
      [] e.op = "copy" -> Res(CopyObj(S, e.h, o))
      [] e.op = "deep" -> Res(DeepObj(S, e.h, o))
      [] e.op = "view" -> Res(ViewObj(S, e.h, o))
      [] e.op = "item" -> IF e.n \in DOMAIN o.it THEN Res(ItemObj(S, e.h, o, e.n)) ELSE Ref(S)
      [] e.op = "slice" -> IF CutObjOk(S, o, e.x, e.b, e.e) THEN Res(CutObj(S, e.h, o, e.x, e.b, e.e)) ELSE Ref(S)
      [] e.op = "squeeze" -> SqueezeObj(S, e, o)
      [] e.op = "rename" -> RenameObj(S, e.h, o, e.p)
      [] e.op = "transpose" -> TransposeObj(S, e.h, o, e.labs)
      [] e.op = "const" -> Res(ConstObj(S, e.h, o))
      [] e.op = "drop" -> DropObj(S, e, o)
      [] e.op = "setcoord" -> SetCoord(S, e, o)
      [] e.op = "setmask" -> SetMask(S, e, o)
      [] e.op = "delcoord" -> DelCoord(S, e, o)
      [] e.op = "delmask" -> DelMask(S, e, o)
      [] e.op = "align" -> Align(S, e, o)
      [] e.op = "setdata" -> SetData(S, e, o)
      [] e.op = "dsset" -> DsSet(S, e, o)
      [] e.op = "dssetda" -> DsSetDA(S, e, o)
      [] e.op = "erase" -> DsErase(S, e, o)
      [] e.op = "extract" -> DsExtract(S, e, o)
      [] e.op = "clear" -> DsClear(S, e, o)
      [] e.op = "write" -> WriteEl(S, e, o)
      [] e.op = "setslice" -> SetSliceOp(S, e, o)

(* ---- observation ---- *)
CoordObs(B, v) == [d |-> v.s, v |-> VarVals(B, v), ro |-> v.ro, al |-> v.al]
ObsObj(S, o) ==
    IF IsDA(o) THEN [k |-> "da", ro |-> o.ro, data |-> VarObs(S.B, DataOf(S, o)),
                     coords |-> [n \in DOMAIN CoordsOf(S, o) |-> CoordObs(S.B, CoordsOf(S, o)[n])], cro |-> S.C[o.co].ro,
                     masks |-> [n \in DOMAIN MasksOf(S, o) |-> VarObs(S.B, MasksOf(S, o)[n])], mro |-> S.M[o.ma].ro]
    ELSE [k |-> "ds", ro |-> o.ro, s |-> o.sz,
          coords |-> [n \in DOMAIN CoordsOf(S, o) |-> CoordObs(S.B, CoordsOf(S, o)[n])], cro |-> S.C[o.co].ro,
          items |-> [n \in DOMAIN o.it |-> [data |-> VarObs(S.B, S.D[o.it[n].dat]),
                       masks |-> [m \in DOMAIN S.M[o.it[n].ma].it |-> VarObs(S.B, S.M[o.it[n].ma].it[m])], mro |-> S.M[o.it[n].ma].ro]]]

(* ---- the property ---- *)
ObjFits(S, o) ==
    /\ \A n \in DOMAIN CoordsOf(S, o) : Fits(SizesOf(S, o), CoordsOf(S, o)[n].s)
    /\ IF IsDA(o) THEN \A n \in DOMAIN MasksOf(S, o) : Fits(SizesOf(S, o), MasksOf(S, o)[n].s)
       ELSE \A n \in DOMAIN o.it : /\ SameUnordered(o.sz, S.D[o.it[n].dat].s)
                                   /\ LET ms == S.M[o.it[n].ma].it IN \A m \in DOMAIN ms : Fits(o.sz, ms[m].s)
AllFit(S) == \A h \in DOMAIN S.H : ObjFits(S, S.H[h])
=============================================================================
