---------------------------- MODULE DatasetTrace ----------------------------
(* Slicing and shape operations of the real data arrays and datasets against
   DataArrays (P12, P14).  Every event stands alone.                           *)
EXTENDS DataArrays
VARIABLE l
E == Trace[l]
\* the observed result is the specified one (or both refuse)
Is(r, Same(_, _)) == IF Unsure(r) THEN TRUE ELSE E.ok = r.ok /\ (E.ok => Same(r.v, E.r))
Arr(p, q) == SameArray(p, q)
ArrAl(p, q) == SameArray(p, q) /\ SameAl(p.coords, q.coords)
Ds(p, q) == /\ p.d = q.d
            /\ SameMap(p.coords, q.coords) /\ SameAl(p.coords, q.coords)
            /\ DOMAIN p.items = DOMAIN q.items
            /\ \A n \in DOMAIN p.items : SameVar(p.items[n].data, q.items[n].data) /\ SameMap(p.items[n].masks, q.items[n].masks)
\* coords not stated as unaligned anywhere
AlignedIfAll(as, r) == \A n \in DOMAIN r.coords : (\E i \in DOMAIN as : n \in DOMAIN as[i].coords /\ as[i].coords[n].al) => r.coords[n].al
\* positional slice found by label
ByPos(p, o) == IF ~p.ok THEN Refused ELSE
    IF "items" \in DOMAIN o THEN SliceDataset(o, p.v[1], p.v[2], p.v[3], 1) ELSE SliceArray(o, p.v[1], p.v[2], p.v[3], 1)
ShapeOf(o) == IF "items" \in DOMAIN o THEN o.d ELSE o.data.d
LPoint == LET a == E.a IN IF E.key \notin DOMAIN a.coords THEN Refused ELSE ByPos(PointByLabel(ShapeOf(a), a.coords[E.key], E.b), a)
LRange == LET a == E.a IN IF E.key \notin DOMAIN a.coords THEN Refused ELSE ByPos(RangeByLabel(ShapeOf(a), a.coords[E.key], E.nb, E.b, E.ne, E.end), a)
\* datasets: item by item
\* a dataset item has the coords whose labels are all among its own
ItemArr(d, n) == [data |-> d.items[n].data, coords |-> Keep(d.coords, LAMBDA c : LabelSet(d.coords[c].d) \subseteq LabelSet(d.items[n].data.d)), masks |-> d.items[n].masks]
DConcat ==
    LET as == E.as
        common == {n \in DOMAIN as[1].items : \A i \in DOMAIN as : n \in DOMAIN as[i].items}
        r == [n \in common |-> ConcatArrays([i \in DOMAIN as |-> ItemArr(as[i], n)], E.x)]
    IN IF common = {} \/ \E n \in common : Unsure(r[n]) THEN TRUE
       ELSE IF \E n \in common : ~r[n].ok THEN ~E.ok
       ELSE IF \E m, n \in common : Content(r[m].v) # Content(r[n].v) /\ ~SameMap(r[m].v.coords, r[n].v.coords) THEN ~E.ok
       ELSE /\ E.ok /\ DOMAIN E.r.items = common
            /\ \A n \in common : SameArray(r[n].v, ItemArr(E.r, n))
(* ---- recovering the original ---- *)
\* r has the elements of v, up to the order of labels and a broadcast along x
Again(r, v, x) == /\ LabelSet(v.d) \ {x} \subseteq LabelSet(r.d) /\ LabelSet(r.d) \subseteq LabelSet(v.d)
                  /\ \A y \in LabelSet(r.d) : Ext(r.d, y) = Ext(v.d, y)
                  /\ Content(PickFrom(r, v.d, ByLabel(r.d, v.d))) = Content(v)
HasNaN(v) == v.t # "bin" /\ NaNTok \in ToSetQ(v.v)
Unslice ==
    LET a == E.a  x == E.x  S == a.data.d
        excused == \/ \E n \in DOMAIN a.coords : EdgesOf(S, a.coords[n], x) /\ HasNaN(a.coords[n])
                   \/ \E n \in DOMAIN a.masks : EdgesOf(S, a.masks[n], x) /\ Len(a.masks[n].d) > 1
    IN excused \/ (/\ E.ok /\ Again(E.r.data, a.data, "") /\ DOMAIN E.r.coords = DOMAIN a.coords /\ DOMAIN E.r.masks = DOMAIN a.masks
                   /\ \A n \in DOMAIN a.coords : Again(E.r.coords[n], a.coords[n], x)
                   /\ \A n \in DOMAIN a.masks : Again(E.r.masks[n], a.masks[n], x))
Unfold ==
    LET a == E.a  x == E.x  S == a.data.d
        gone(m) == {n \in DOMAIN m : Len(E.to) > 1 /\ EdgesOf(S, m[n], x) /\ (HasNaN(m[n]) \/ Ext(S, x) = 0)}
        back(p, q) == DOMAIN q \subseteq DOMAIN p /\ DOMAIN p \ DOMAIN q \subseteq gone(p) /\ \A n \in DOMAIN q : SameVar(p[n], q[n])
    IN ~IsRefused(E.r) /\ SameVar(a.data, E.r.data) /\ back(a.coords, E.r.coords) /\ back(a.masks, E.r.masks)
Verdict ==
    CASE E.op = "same" -> E.a = E.r
      [] E.op = "slice" -> Is(SliceArray(E.a, E.x, E.b, E.e, E.st), ArrAl)
      [] E.op = "dslice" -> Is(SliceDataset(E.a, E.x, E.b, E.e, E.st), Ds)
      [] E.op = "lpoint" -> Is(LPoint, ArrAl)
      [] E.op = "lrange" -> Is(LRange, ArrAl)
      [] E.op = "dlpoint" -> Is(LPoint, Ds)
      [] E.op = "dlrange" -> Is(LRange, Ds)
      [] E.op = "concat" -> Is(ConcatArrays(E.as, E.x), Arr) /\ (E.ok => AlignedIfAll(E.as, E.r))
      [] E.op = "dconcat" -> DConcat
      [] E.op = "fold" -> Is(FoldArray(E.a, E.x, E.to), ArrAl)
      [] E.op = "flatten" -> Is(FlattenArray(E.a, E.all, E.labs, E.to), Arr)
      [] E.op = "transpose" -> Is(TransposeArray(E.a, E.labs), ArrAl)
      [] E.op = "squeeze" -> Is(SqueezeArray(E.a, E.all, E.labs), ArrAl)
      [] E.op = "dsqueeze" -> Is(SqueezeDataset(E.a, E.all, E.labs), Ds)
      [] E.op = "rename" -> Is(RenameArray(E.a, E.p), ArrAl)
      \* slicing into pieces and joining, folding and flattening give back the original
      [] E.op = "unslice" -> Unslice
      [] E.op = "unfold" -> Unfold
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
