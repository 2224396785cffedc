------------------------------ MODULE Labelled ------------------------------
(* Operations between labelled arrays (P15): which coords must match, which
   coords and masks the result has, and what an in-place operation changes.
   Values of variables as in Arrays; element-wise operations as in Views, with
   each operand in a heap of its own.                                          *)
EXTENDS DataArrays

Buffer(v) == [v |-> v.v, w |-> v.w, hv |-> v.hv, u |-> v.u, t |-> v.t]
Handle(v, i, ro) == [b |-> i, s |-> v.d, c |-> Identity(Volume(v.d)), ro |-> ro, bc |-> FALSE, t |-> v.t]
NoRo(v) == [k \in DOMAIN v \ {"ro", "al"} |-> v[k]]
FromBuffer(s, x) == [d |-> s, v |-> x.v, w |-> x.w, hv |-> x.hv, u |-> x.u, t |-> x.t]

(* ---- elements ---- *)
\* possible outcomes [ok, v] of f(a, b); D: shape observed
Events(v) == [k \in DOMAIN v.ev |-> Len(v.ev[k])]
BinsVarT(f, a, b, typed) ==     \* every event of a with the element of b for its bin
    IF ~Includes(a.d, b.d) THEN {[ok |-> FALSE, unsure |-> TRUE]}
    ELSE IF ~typed \/ ~UOk(f, a.u, b.u) THEN {Refused}
    ELSE IF b.hv /\ f \in Arith THEN {Refused}
    ELSE LET at == ByLabel(b.d, a.d) IN
         {[ok |-> TRUE, v |-> [NoRo(a) EXCEPT !.u = UOut(f, a.u, b.u), !.bt = OutType(f, a.bt, b.t), !.hv = (f \in Arith /\ a.hv),
              !.ev = [k \in DOMAIN a.ev |-> [i \in DOMAIN a.ev[k] |-> [j \in DOMAIN a.ev[k][i] |->
                        IF j = 1 THEN Fv(f, a.ev[k][i][1], b.v[at[k]])
                        ELSE IF j = 2 /\ f \in Arith THEN (IF a.hv THEN Fw(f, a.ev[k][i][1], a.ev[k][i][2], b.v[at[k]], 0) ELSE 0)
                        ELSE IF j = 2 THEN 0 ELSE a.ev[k][i][j]]]]]]}
BinsVar(f, a, b) == BinsVarT(f, a, b, TypesOk(f, a.bt, b.t))
VarBin(f, a, b, D) ==
    IF a.t = "bin" /\ b.t = "bin" THEN {[ok |-> FALSE, unsure |-> TRUE]}
    ELSE IF b.t = "bin" THEN {[ok |-> FALSE, unsure |-> TRUE]}
    ELSE IF a.t = "bin" THEN BinsVar(f, a, b)
    ELSE {IF ~r.ok THEN Refused ELSE Ok(FromBuffer(r.H["r"].s, r.heap[r.H["r"].b]))
          : r \in OpBin(<<Buffer(a), Buffer(b)>>, <<>>, "r", f, Handle(a, 1, FALSE), Handle(b, 2, FALSE), D)}

(* ---- coords ---- *)
Same(p, q) == Content(p) = Content(q)
HasNaNs(v) == v.t # "bin" /\ NaNTok \in ToSetQ(v.v)
Names(a, b) == DOMAIN a \cup DOMAIN b
Aligned(m, n) == n \in DOMAIN m /\ m[n].al
Clash(ca, cb) == \E n \in DOMAIN ca \cap DOMAIN cb : ca[n].al /\ cb[n].al /\ ~Same(ca[n], cb[n])
\* neither has it aligned: kept if both have the same
Kept(ca, cb) == {n \in Names(ca, cb) : Aligned(ca, n) \/ Aligned(cb, n)
                                       \/ (n \in DOMAIN ca /\ n \in DOMAIN cb /\ Same(ca[n], cb[n]))}
UnionCoords(ca, cb) == [n \in Kept(ca, cb) |-> IF Aligned(ca, n) THEN ca[n] ELSE IF Aligned(cb, n) THEN cb[n] ELSE ca[n]]

(* ---- masks ---- *)
IsMask(m) == m.t = "bool" /\ m.u = NoUnit
\* the element-wise "or"; D: shape observed
Or(p, q, D) == VarBin("or", p, q, D)
\* r is the union of masks ma and mb
IsUnion(ma, mb, r) ==
    /\ DOMAIN r = Names(ma, mb)
    /\ \A n \in DOMAIN r : IF n \in DOMAIN ma /\ n \in DOMAIN mb
                           THEN \E o \in Or(ma[n], mb[n], r[n].d) : o.ok /\ Same(o.v, r[n])
                           ELSE IF n \in DOMAIN ma THEN Same(r[n], ma[n]) ELSE Same(r[n], mb[n])
NoUnion(ma, mb) == \E n \in DOMAIN ma \cap DOMAIN mb : ~IsMask(ma[n]) \/ ~IsMask(mb[n]) \/ ~Mergeable(ma[n].d, mb[n].d)

(* ---- operations giving a new array ---- *)
\* operands are arrays, or variables as arrays without metadata (var)
BinRefused(f, a, b) == Clash(a.coords, b.coords) \/ NoUnion(a.masks, b.masks)
BinShape(a, b) == IF Mergeable(a.data.d, b.data.d) THEN MergeOrdered(a.data.d, b.data.d) ELSE <<>>
BinCoords(a, va, b, vb) == IF va THEN b.coords ELSE IF vb THEN a.coords ELSE UnionCoords(a.coords, b.coords)
\* the union of coords or masks does not fit the result
Unfit(a, b, c) == Mergeable(a.data.d, b.data.d) /\
    LET D == BinShape(a, b) IN
    \/ ~MapFits(D, c) \/ ~MapFits(D, a.masks) \/ ~MapFits(D, b.masks)
    \/ \E n \in DOMAIN a.masks \cap DOMAIN b.masks : Mergeable(a.masks[n].d, b.masks[n].d) /\ ~Fits(D, MergeOrdered(a.masks[n].d, b.masks[n].d))
\* ok, r: the outcome observed
BinOk(f, a, va, b, vb, ok, r) ==
    LET outs == VarBin(f, a.data, b.data, IF ok THEN r.data.d ELSE BinShape(a, b))
        unsure == \E o \in outs : Unsure(o)
        c == BinCoords(a, va, b, vb)
    IN IF BinRefused(f, a, b) \/ Unfit(a, b, c) THEN ~ok
       ELSE IF ~ok THEN unsure \/ \E o \in outs : ~o.ok
       ELSE /\ unsure \/ \E o \in outs : o.ok /\ Same(o.v, r.data)
            /\ SameMap(r.coords, c) /\ SameAl(r.coords, c)
            /\ IsUnion(a.masks, b.masks, r.masks)

(* ---- operations in place ---- *)
\* left operand: the slice sl = <<x, b, e, st>> of an array p, or all of it (<<>>)
Part(p, sl) == IF sl = <<>> THEN p ELSE SliceArray(p, sl[1], sl[2], sl[3], sl[4]).v
\* the part of coord, mask or data v that belongs to it
PartHandle(S, v, i, sl, ro) ==
    IF sl = <<>> \/ ~HasDim(v.d, sl[1]) THEN Handle(v, i, ro)
    ELSE LET x == sl[1]  b == sl[2]  e == sl[3]  st == sl[4]
             \* edges: one more
             e1 == IF Ext(v.d, x) = Ext(S, x) THEN e ELSE IF e = -1 THEN b + 2 ELSE IF b = e THEN e ELSE e + 1
         IN [b |-> i, s |-> SliceShape(v.d, x, b, e1, st).v, c |-> SliceCells(v.d, Identity(Volume(v.d)), x, b, e1, st),
             ro |-> ro, bc |-> FALSE, t |-> v.t]
\* every aligned coord of b is in a, and equal if aligned there
NotSuperset(ca, cb) == \/ \E n \in DOMAIN cb : cb[n].al /\ n \notin DOMAIN ca
                       \/ Clash(ca, cb)
\* comparing coords with NaN
MaybeNot(ca, cb) == \E n \in DOMAIN ca \cap DOMAIN cb : ca[n].al /\ cb[n].al /\ HasNaNs(ca[n])
\* outcomes for data v of shape S; alias: b is <<slice>> of v itself
DataIn(f, v, sl, b, alias, ro) ==
    IF v.t = "bin" THEN (IF b.t = "bin" \/ sl # <<>> \/ alias # <<>> THEN {[ok |-> FALSE, unsure |-> TRUE]}
                         ELSE {IF o.ok THEN Ok([o.v EXCEPT !.bt = v.bt]) ELSE o : o \in BinsVarT(f, v, b, InTypesOk(f, v.bt, b.t))})
    ELSE IF b.t = "bin" THEN {[ok |-> FALSE, unsure |-> TRUE]}
    ELSE LET h == PartHandle(v.d, v, 1, sl, ro)
             g == IF alias = <<>> THEN Handle(b, 2, FALSE) ELSE PartHandle(v.d, v, 1, alias[1], FALSE)
         IN {IF ~r.ok THEN Refused ELSE Ok(FromBuffer(v.d, r.heap[1])) : r \in OpInPlace(<<Buffer(v), Buffer(b)>>, <<>>, f, h, g)}
\* masks: is the union refused?  S: shape of the whole left operand
MaskPart(S, v, sl) == LET h == PartHandle(S, v, 1, sl, FALSE) IN PickFrom(v, h.s, h.c)
Covers(S, v, sl) == sl = <<>> \/ HasDim(v.d, sl[1])      \* writable through the slice
MasksRefused(S, ma, mb, sl) ==
    \E n \in DOMAIN mb :
       IF n \notin DOMAIN ma THEN sl # <<>>
       ELSE LET m == MaskPart(S, ma[n], sl) IN
            \/ ~IsMask(ma[n]) \/ ~IsMask(mb[n]) \/ ~Includes(m.d, mb[n].d)
            \/ ((~Covers(S, ma[n], sl) \/ ma[n].ro) /\ \E k \in DOMAIN m.v : m.v[k] = 0 /\ mb[n].v[ByLabel(mb[n].d, m.d)[k]] = 1)
NewMask(S, v, mb, sl) ==
    IF ~Covers(S, v, sl) \/ v.ro THEN v
    ELSE LET h == PartHandle(S, v, 1, sl, FALSE)
             m == PickFrom(v, h.s, h.c)  at == ByLabel(mb.d, h.s)
         IN [v EXCEPT !.v = Store(v.v, h.c, [k \in DOMAIN m.v |-> BoolI(m.v[k] + mb.v[at[k]] > 0)])]
UnionIn(S, ma, mb, sl) == [n \in Names(ma, mb) |-> IF n \notin DOMAIN ma THEN mb[n] ELSE IF n \in DOMAIN mb THEN NewMask(S, ma[n], mb[n], sl) ELSE ma[n]]
\* a: whole left operand, p: the part operated on; vb: b is a variable
InMust(f, a, p, b, vb, sl) == ~vb /\ (NotSuperset(p.coords, b.coords) \/ MasksRefused(a.data.d, a.masks, b.masks, sl))
InOuts(f, a, sl, b, alias) == DataIn(f, a.data, sl, b.data, alias, a.data.ro)
InFails(f, a, p, b, vb, sl, alias) ==       \* it may be refused
    InMust(f, a, p, b, vb, sl) \/ (~vb /\ MaybeNot(p.coords, b.coords)) \/ \E o \in InOuts(f, a, sl, b, alias) : ~o.ok \/ Unsure(o)
\* new data and masks after it was accepted
InDone(f, a, p, b, vb, sl, alias, data, masks) ==
    /\ ~InMust(f, a, p, b, vb, sl)
    /\ LET outs == InOuts(f, a, sl, b, alias) IN (\E o \in outs : Unsure(o)) \/ \E o \in outs : o.ok /\ Same(o.v, data)
    /\ LET m == UnionIn(a.data.d, a.masks, b.masks, sl) IN SameMap(masks, IF vb THEN a.masks ELSE m)
InOk(f, a, sl, b, vb, alias, ok, a2) ==
    LET p == Part(a, sl) IN
    IF ~ok THEN InFails(f, a, p, b, vb, sl, alias) /\ a2 = a
    ELSE InDone(f, a, p, b, vb, sl, alias, a2.data, a2.masks) /\ a2.coords = a.coords

(* ---- datasets ---- *)
ItemOf(d, n) == [data |-> d.items[n].data, coords |-> Keep(d.coords, LAMBDA c : LabelSet(d.coords[c].d) \subseteq LabelSet(d.items[n].data.d)), masks |-> d.items[n].masks]
IsDs(o) == "items" \in DOMAIN o
ItemsOf(a, b) == IF IsDs(a) /\ IsDs(b) THEN DOMAIN a.items \cap DOMAIN b.items ELSE IF IsDs(a) THEN DOMAIN a.items ELSE DOMAIN b.items
Operand(o, n) == IF IsDs(o) THEN ItemOf(o, n) ELSE o
DsBinOk(f, a, va, b, vb, ok, r) ==
    LET ns == ItemsOf(a, b)
        outs == [n \in ns |-> VarBin(f, Operand(a, n).data, Operand(b, n).data, BinShape(Operand(a, n), Operand(b, n)))]
    IN IF ok THEN /\ DOMAIN r.items = ns
                  /\ \A n \in ns : BinOk(f, Operand(a, n), va, Operand(b, n), vb, TRUE, [ItemOf(r, n) EXCEPT !.coords = r.coords])
       ELSE \E n \in ns : \/ BinRefused(f, Operand(a, n), Operand(b, n))
                          \/ \E o \in outs[n] : ~o.ok \/ Unsure(o)
                          \/ Unfit(Operand(a, n), Operand(b, n), BinCoords(Operand(a, n), va, Operand(b, n), vb))
\* alias: <<name, slice>>: b is a slice of that item
DsPart(d, sl) == IF sl = <<>> THEN d ELSE SliceDataset(d, sl[1], sl[2], sl[3], sl[4]).v
DsInOk(f, a, sl, b, vb, alias, ok, a2) ==
    LET ns == IF IsDs(b) THEN DOMAIN b.items ELSE DOMAIN a.items
        part == DsPart(a, sl)
        al(n) == IF alias # <<>> /\ alias[1] = n THEN <<alias[2]>> ELSE <<>>
    IN IF ~ok THEN /\ a2 = a
                   /\ ~(ns \subseteq DOMAIN a.items)
                      \/ \E n \in ns : InFails(f, ItemOf(a, n), ItemOf(part, n), Operand(b, n), vb, sl, al(n))
       ELSE /\ ns \subseteq DOMAIN a.items
            /\ a2.coords = a.coords /\ a2.d = a.d /\ DOMAIN a2.items = DOMAIN a.items
            /\ \A n \in DOMAIN a.items : IF n \in ns THEN InDone(f, ItemOf(a, n), ItemOf(part, n), Operand(b, n), vb, sl, al(n), a2.items[n].data, a2.items[n].masks)
                                         ELSE a2.items[n] = a.items[n]
=============================================================================
