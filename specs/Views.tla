------------------------------- MODULE Views -------------------------------
(* P09, P10, P12, P21 (variables).  A heap of buffers and handles on them.

   A buffer holds values, optionally variances, a unit and the element type:
     [v |-> Seq(Int), w |-> Seq(Int), hv |-> BOOLEAN, u |-> unit, t |-> dtype]
   (for 3-vectors v holds the components one after the other).
   A handle (what scipp calls a Variable) is a view of a buffer:
     [b  |-> buffer number, s |-> labelled shape, c |-> cells in row-major order
      of s (indices into v), ro |-> read-only, t |-> dtype,
      bc |-> some broadcast is in its history]
   Units are <<1, i, j>> for m^i s^j and <<0, 0, 0>> for "no unit".           *)
EXTENDS Shapes

Identity(n) == [i \in 1..n |-> i]
NCells(s) == Volume(s)
\* cells of a view of shape D of something of shape S with cells c, where
\* Co(p, i) is the coordinate along the i-th label of S of position p of D
Gather(S, c, D, Co(_, _)) ==
    LET rs == RowMajor(S)
        rd == RowMajor(D)
    IN [k \in 1..Volume(D) |->
          LET p == [i \in DOMAIN D |-> ((k - 1) \div rd[i]) % D[i][2]]
          IN c[1 + FoldSum([i \in DOMAIN S |-> rs[i] * Co(p, i)])]]
\* positions of S for every position of D, by label (labels of S are among those of D)
ByLabel(S, D) == LET at == [i \in DOMAIN S |-> PosOf(D, S[i][1])]
                 IN Gather(S, Identity(Volume(S)), D, LAMBDA p, i : p[at[i]])
SliceCells(S, c, x, b, e, st) ==
    LET j == PosOf(S, x)  D == SliceShape(S, x, b, e, st).v IN
    IF e = -1 THEN Gather(S, c, D, LAMBDA p, i : IF i < j THEN p[i] ELSE IF i = j THEN b ELSE p[i - 1])
    ELSE Gather(S, c, D, LAMBDA p, i : IF i = j THEN b + p[i] * st ELSE p[i])

(* ---- contents ---- *)
Comps(t) == IF t = "vec" THEN 3 ELSE 1
Vals(heap, h) == LET v == heap[h.b].v IN
    IF h.t = "vec" THEN [k \in 1..(3 * Len(h.c)) |-> v[h.c[(k - 1) \div 3 + 1] + ((k - 1) % 3)]]
    ELSE [k \in DOMAIN h.c |-> v[h.c[k]]]
Vars(heap, h) == IF heap[h.b].hv /\ h.t # "vec" THEN LET w == heap[h.b].w IN [k \in DOMAIN h.c |-> w[h.c[k]]] ELSE <<>>
HasVar(heap, h) == heap[h.b].hv /\ h.t # "vec"
UnitOf(heap, h) == heap[h.b].u
Obs(heap, h) == [d |-> h.s, v |-> Vals(heap, h), w |-> Vars(heap, h), hv |-> HasVar(heap, h),
                 u |-> UnitOf(heap, h), t |-> h.t, ro |-> h.ro]
\* cells of the buffer that h's elements occupy
Touched(h) == IF h.t = "vec" THEN UNION {{x, x + 1, x + 2} : x \in ToSetQ(h.c)} ELSE ToSetQ(h.c)
Injective(q) == Cardinality(ToSetQ(q)) = Len(q)
Whole(heap, h) == Touched(h) = DOMAIN heap[h.b].v
\* new contents of a buffer array when cells c get `new` (row-major order of the view)
Store(v, c, new) ==
    IF c = Identity(Len(v)) THEN new
    ELSE LET at == ToSetQ(c) IN [i \in DOMAIN v |-> IF i \in at THEN new[CHOOSE k \in DOMAIN c : c[k] = i] ELSE v[i]]
VecCells(c) == [k \in 1..(3 * Len(c)) |-> c[(k - 1) \div 3 + 1] + ((k - 1) % 3)]
StoreV(v, h, new) == Store(v, IF h.t = "vec" THEN VecCells(h.c) ELSE h.c, new)

(* ---- results: refused, or a new heap and handles ---- *)
R(ok, heap, H) == [ok |-> ok, heap |-> heap, H |-> H]
No(heap, H) == {R(FALSE, heap, H)}
Put(H, n, h) == [x \in DOMAIN H \cup {n} |-> IF x = n THEN h ELSE H[x]]
View1(heap, H, n, h) == {R(TRUE, heap, Put(H, n, h))}
Alloc(heap, H, n, s, v, w, hv, u, t) ==
    {R(TRUE, Append(heap, [v |-> v, w |-> w, hv |-> hv, u |-> u, t |-> t]),
       Put(H, n, [b |-> Len(heap) + 1, s |-> s, ro |-> FALSE, bc |-> FALSE, t |-> t,
                  c |-> IF t = "vec" THEN [i \in 1..Volume(s) |-> 3 * i - 2] ELSE Identity(Volume(s))]))}

(* ---- making views ---- *)
OpSlice(heap, H, n, g, x, b, e, st) ==
    IF ~SliceOk(b, e, st) THEN No(heap, H) ELSE
    LET r == SliceShape(g.s, x, b, e, st) IN
    IF ~r.ok THEN No(heap, H)
    ELSE View1(heap, H, n, [g EXCEPT !.s = r.v, !.c = SliceCells(g.s, g.c, x, b, e, st)])
OpTranspose(heap, H, n, g, labs) ==
    LET r == Transpose(g.s, labs) IN
    IF ~r.ok THEN No(heap, H)
    ELSE View1(heap, H, n, [g EXCEPT !.s = r.v, !.c = LET D == r.v IN Gather(g.s, g.c, D, LAMBDA p, i : p[PosOf(D, g.s[i][1])])])
OpFold(heap, H, n, g, x, to) ==
    LET r == Fold(g.s, x, to) IN
    IF ~r.ok THEN No(heap, H) ELSE View1(heap, H, n, [g EXCEPT !.s = r.v])
OpRename(heap, H, n, g, p, strict) ==
    LET r == Rename(g.s, p, strict) IN
    IF ~r.ok THEN No(heap, H) ELSE View1(heap, H, n, [g EXCEPT !.s = r.v])
OpBroadcast(heap, H, n, g, D) ==
    IF ~Includes(D, g.s) THEN No(heap, H)
    ELSE View1(heap, H, n, [g EXCEPT !.s = D, !.ro = @ \/ Volume(D) # Volume(g.s), !.bc = @ \/ Len(D) # Len(g.s),
                            !.c = Gather(g.s, g.c, D, LAMBDA p, i : p[PosOf(D, g.s[i][1])])])
OpConst(heap, H, n, g) == View1(heap, H, n, [g EXCEPT !.ro = TRUE])
OpAssign(heap, H, n, g) == View1(heap, H, n, g)
\* labs = <<>>: all labels of extent 1
OpSqueeze(heap, H, n, g, labs) ==
    IF ~NoDup(labs) \/ \E i \in DOMAIN labs : ~HasDim(g.s, labs[i]) \/ Ext(g.s, labs[i]) # 1 THEN No(heap, H)
    ELSE View1(heap, H, n, [g EXCEPT !.s = SelectSeq(g.s, LAMBDA e : IF labs = <<>> THEN e[2] # 1 ELSE e[1] \notin ToSetQ(labs))])
OpField(heap, H, n, g, k) == IF g.t # "vec" THEN No(heap, H)
    ELSE View1(heap, H, n, [g EXCEPT !.t = "f8", !.c = [i \in DOMAIN g.c |-> g.c[i] + k]])
CopyOf(heap, H, n, g) == Alloc(heap, H, n, g.s, Vals(heap, g), Vars(heap, g), HasVar(heap, g), UnitOf(heap, g), g.t)
\* labels labs (a contiguous run, in order) become one; shares data or not
FlattenShape(s, labs, to) ==
    IF labs = <<>> THEN AddInner(s, to, 1)
    ELSE IF \A i \in 1..(Len(s) - Len(labs) + 1) : [j \in DOMAIN labs |-> s[i + j - 1][1]] # labs THEN Refused
    ELSE LET i == CHOOSE i \in 1..(Len(s) - Len(labs) + 1) : [j \in DOMAIN labs |-> s[i + j - 1][1]] = labs
             r == SubSeq(s, 1, i - 1) \o << <<to, Volume(SubSeq(s, i, i + Len(labs) - 1))>> >> \o Suffix(s, i + Len(labs))
         IN IF NoDup(Labels(r)) THEN Ok(r) ELSE Refused
OpFlatten(heap, H, n, g, labs, to, shared) ==
    LET r == FlattenShape(g.s, labs, to) IN
    IF ~r.ok THEN No(heap, H)
    ELSE IF shared THEN View1(heap, H, n, [g EXCEPT !.s = r.v])
    ELSE Alloc(heap, H, n, r.v, Vals(heap, g), Vars(heap, g), HasVar(heap, g), UnitOf(heap, g), g.t)

(* ---- concatenation ---- *)
ConcatDims(gs, x) ==
    LET k == IF \E i \in DOMAIN gs : HasDim(gs[i].s, x) THEN CHOOSE i \in DOMAIN gs : HasDim(gs[i].s, x) /\ \A j \in 1..(i - 1) : ~HasDim(gs[j].s, x) ELSE 0
    IN IF k = 0 THEN << <<x, 1>> >> \o gs[1].s ELSE [i \in DOMAIN gs[k].s |-> IF gs[k].s[i][1] = x THEN <<x, 1>> ELSE gs[k].s[i]]
ExtOr1(s, x) == IF HasDim(s, x) THEN Ext(s, x) ELSE 1
ConcatOk(heap, gs, x) ==
    LET D == ConcatDims(gs, x) IN
    /\ \A i \in DOMAIN gs : LET h == gs[i] IN
         /\ h.t = gs[1].t /\ HasVar(heap, h) = HasVar(heap, gs[1])
         /\ \A y \in LabelSet(h.s) \ {x} : HasDim(D, y) /\ Ext(D, y) = Ext(h.s, y)
\* units agree (when nothing but one operand has elements its unit may win)
ConcatUnits(heap, gs) == {UnitOf(heap, gs[i]) : i \in DOMAIN gs}
OpConcat(heap, H, n, gs, x) ==
    IF ~ConcatOk(heap, gs, x) THEN No(heap, H) ELSE
    LET D0 == ConcatDims(gs, x)
        len == [i \in DOMAIN gs |-> ExtOr1(gs[i].s, x)]
        tot == FoldSum(len)
        D == [i \in DOMAIN D0 |-> IF D0[i][1] = x THEN <<x, tot>> ELSE D0[i]]
        jx == PosOf(D, x)
        off == [i \in DOMAIN gs |-> FoldSum(SubSeq(len, 1, i - 1))]
        rd == RowMajor(D)
        m == Comps(gs[1].t)
        src(k) == LET p == [i \in DOMAIN D |-> ((k - 1) \div rd[i]) % D[i][2]]
                      q == CHOOSE q \in DOMAIN gs : off[q] <= p[jx] /\ p[jx] < off[q] + len[q]
                      s == gs[q].s
                      rs == RowMajor(s)
                  IN <<q, gs[q].c[1 + FoldSum([i \in DOMAIN s |-> rs[i] * (IF s[i][1] = x THEN p[jx] - off[q] ELSE p[PosOf(D, s[i][1])])])]>>
        all == [k \in 1..Volume(D) |-> src(k)]
        v == IF m = 1 THEN [k \in DOMAIN all |-> heap[gs[all[k][1]].b].v[all[k][2]]]
             ELSE [k \in 1..(3 * Len(all)) |-> heap[gs[all[(k - 1) \div 3 + 1][1]].b].v[all[(k - 1) \div 3 + 1][2] + ((k - 1) % 3)]]
        w == IF HasVar(heap, gs[1]) THEN [k \in DOMAIN all |-> heap[gs[all[k][1]].b].w[all[k][2]]] ELSE <<>>
        us == ConcatUnits(heap, gs)
        adds(i) == len[i] > 0 /\ (\A y \in DOMAIN D0 : D0[y][1] = x \/ D0[y][2] > 0)  \* contributes elements
        make(u) == Alloc(heap, H, n, D, v, w, HasVar(heap, gs[1]), u, gs[1].t)
    IN IF Cardinality(us) = 1 THEN make(UnitOf(heap, gs[1]))
       ELSE IF \E i, j \in DOMAIN gs : i # j /\ adds(i) /\ adds(j) /\ UnitOf(heap, gs[i]) # UnitOf(heap, gs[j]) THEN No(heap, H)
       ELSE No(heap, H) \cup UNION {make(u) : u \in us}

(* ---- writing ---- *)
\* element i (0-based, row-major) through the handle
OpWrite(heap, H, g, i, vals, w) ==
    IF g.ro THEN No(heap, H)
    ELSE LET c == g.c[i + 1] IN
         {R(TRUE, [heap EXCEPT ![g.b].v = [k \in DOMAIN @ |-> IF k >= c /\ k < c + Comps(g.t) THEN vals[k - c + 1] ELSE @[k]],
                               ![g.b].w = [k \in DOMAIN @ |-> IF w # <<>> /\ k = c THEN w[1] ELSE @[k]]], H)}
SetV(heap, h, new) == [heap EXCEPT ![h.b].v = StoreV(@, h, new)]
SetVW(heap, h, new, neww) == [heap EXCEPT ![h.b].v = StoreV(@, h, new), ![h.b].w = IF heap[h.b].hv THEN Store(@, h.c, neww) ELSE @]
\* new unit through a handle: only if it covers the whole buffer
UnitRefused(heap, h, u) == UnitOf(heap, h) # u /\ ~Whole(heap, h)
UnitUnsure(heap, h, u) == UnitOf(heap, h) # u /\ heap[h.b].v = <<>>
WithUnit(heap, h, u) == [heap EXCEPT ![h.b].u = u]
MaybeUnit(heap, H, h, u, new) ==    \* `new` with the unit set, or a refusal
    IF UnitRefused(heap, h, u) THEN No(heap, H)
    ELSE {R(TRUE, WithUnit(new, h, u), H)} \cup (IF UnitUnsure(heap, h, u) THEN No(heap, H) ELSE {})
OpSetUnit(heap, H, h, u) == IF h.ro THEN No(heap, H) ELSE MaybeUnit(heap, H, h, u, heap)
CanVar(t) == t \in {"f8", "f4"}
OpSetVar(heap, H, h, hasg, g) ==
    IF h.ro \/ ~Whole(heap, h) THEN No(heap, H)
    ELSE IF ~hasg THEN {R(TRUE, [heap EXCEPT ![h.b].hv = FALSE, ![h.b].w = <<>>], H)} \cup (IF h.t = "vec" \/ heap[h.b].v = <<>> THEN No(heap, H) ELSE {})
    ELSE IF ~CanVar(h.t) \/ g.t # h.t \/ HasVar(heap, g) \/ UnitOf(heap, g) # UnitOf(heap, h) \/ g.s # h.s THEN No(heap, H)
    ELSE {R(TRUE, [heap EXCEPT ![h.b].hv = TRUE, ![h.b].w = Store([k \in DOMAIN heap[h.b].v |-> 0], h.c, Vals(heap, g))], H)}
         \cup (IF heap[h.b].v = <<>> THEN No(heap, H) ELSE {})      \* a slice of nothing may count as partial
\* copy(src, out)
OpCopyTo(heap, H, g, h) ==
    IF h.ro \/ ~Includes(h.s, g.s) \/ g.t # h.t \/ HasVar(heap, g) # HasVar(heap, h) THEN No(heap, H)
    ELSE LET at == ByLabel(g.s, h.s)
             gv == Vals(heap, g)  gw == Vars(heap, g)
             nv == IF g.t = "vec" THEN [k \in 1..(3 * Len(at)) |-> gv[3 * (at[(k - 1) \div 3 + 1] - 1) + ((k - 1) % 3) + 1]] ELSE [k \in DOMAIN at |-> gv[at[k]]]
         IN MaybeUnit(heap, H, h, UnitOf(heap, g), SetVW(heap, h, nv, IF HasVar(heap, g) THEN [k \in DOMAIN at |-> gw[at[k]]] ELSE <<>>))
OpSetSlice(heap, H, h, x, b, e, st, g) ==
    IF ~SliceOk(b, e, st) \/ ~SliceShape(h.s, x, b, e, st).ok \/ UnitOf(heap, g) # UnitOf(heap, h) THEN No(heap, H)
    ELSE OpCopyTo(heap, H, g, [h EXCEPT !.s = SliceShape(h.s, x, b, e, st).v, !.c = SliceCells(h.s, h.c, x, b, e, st)])

(* ---- element-wise operations ---- *)
Arith == {"add", "sub", "mul"}
Cmp == {"less", "equal", "greater_equal", "not_equal"}
Logic == {"or", "and", "xor"}
Num == {"f8", "f4", "i8", "i4"}
BoolI(b) == IF b THEN 1 ELSE 0
Fv(f, a, b) == CASE f = "add" -> a + b [] f = "sub" -> a - b [] f = "mul" -> a * b
                 [] f = "less" -> BoolI(a < b) [] f = "equal" -> BoolI(a = b) [] f = "greater_equal" -> BoolI(a >= b) [] f = "not_equal" -> BoolI(a # b)
                 [] f = "or" -> BoolI(a + b > 0) [] f = "and" -> a * b [] f = "xor" -> BoolI(a # b)
Fw(f, a, va, b, vb) == IF f = "mul" THEN va * b * b + vb * a * a ELSE va + vb
OutType(f, a, b) == IF f \in Cmp THEN "bool" ELSE IF a = "vec" \/ b = "vec" THEN "vec"
    ELSE IF f \in Logic THEN "bool"
    ELSE IF "f8" \in {a, b} THEN "f8" ELSE IF "f4" \in {a, b} THEN "f4" ELSE IF "i8" \in {a, b} THEN "i8" ELSE "i4"    \* also bool * bool
TypesOk(f, a, b) == CASE f \in {"add", "sub"} -> (a \in Num /\ b \in Num) \/ (a = "vec" /\ b = "vec")
                      [] f = "mul" -> ({a, b} \subseteq Num \cup {"bool"}) \/ (a = "vec" /\ b \in Num) \/ (a \in Num /\ b = "vec")
                      [] f \in {"equal", "not_equal"} -> (a \in Num /\ b \in Num) \/ (a = b)
                      [] f \in Cmp -> (a \in Num /\ b \in Num) \/ (a = "bool" /\ b = "bool")
                      [] f \in Logic -> a = "bool" /\ b = "bool"
InTypesOk(f, a, b) == CASE f \in {"add", "sub"} -> <<a, b>> \in {<<"f8", "f8">>, <<"f8", "f4">>, <<"f8", "i8">>, <<"f8", "i4">>, <<"f8", "bool">>, <<"f4", "f4">>, <<"f4", "f8">>, <<"f4", "i8">>, <<"f4", "i4">>, <<"i8", "i8">>, <<"i8", "i4">>, <<"i8", "bool">>, <<"i4", "i4">>, <<"i4", "i8">>, <<"vec", "vec">>}
                        [] f = "mul" -> <<a, b>> \in {<<"f8", "f8">>, <<"f8", "f4">>, <<"f8", "i8">>, <<"f8", "i4">>, <<"f4", "f4">>, <<"f4", "f8">>, <<"f4", "i8">>, <<"f4", "i4">>, <<"i8", "i8">>, <<"i8", "i4">>, <<"i8", "bool">>, <<"i4", "i4">>, <<"i4", "i8">>, <<"vec", "f8">>, <<"vec", "f4">>, <<"vec", "i8">>, <<"vec", "i4">>}
                        [] f \in Logic -> a = "bool" /\ b = "bool"
                        [] OTHER -> FALSE
NoUnit == <<0, 0, 0>>
UOk(f, a, b) == IF f = "mul" THEN a[1] = b[1] ELSE IF f \in Logic THEN a = NoUnit /\ b = NoUnit ELSE a = b
UOut(f, a, b) == IF f = "mul" THEN <<a[1], a[2] + b[2], a[3] + b[3]>> ELSE IF f \in Cmp THEN NoUnit ELSE a
\* uncertain operands may not be broadcast: what is refused for sure, and maybe
VarBcast(heap, D, h) == HasVar(heap, h) /\ (Len(D) > Len(h.s) \/ (Volume(D) > 0 /\ ~Injective(h.c)))
VarBcastMaybe(heap, D, h) == HasVar(heap, h) /\ h.bc
\* the same view of the same buffer: fully correlated
SameView(a, b) == a.b = b.b /\ a.s = b.s /\ a.c = b.c /\ a.t = b.t
CorrOpts(heap, a, b) == IF ~HasVar(heap, a) \/ ~HasVar(heap, b) \/ ~SameView(a, b) THEN {FALSE}
                        ELSE IF \A i \in DOMAIN a.s : a.s[i][2] > 1 THEN {TRUE} ELSE {TRUE, FALSE}
CorrW(f, x, w) == CASE f = "add" -> 4 * w [] f = "sub" -> 0 [] f = "mul" -> 4 * x * x * w
\* values and variances of f(a, b) on shape D
BinVals(heap, f, a, b, D) ==
    LET ia == ByLabel(a.s, D)  ib == ByLabel(b.s, D)
        va == Vals(heap, a)  vb == Vals(heap, b)
        ma == Comps(a.t)  mb == Comps(b.t)
        m == IF f \in Cmp THEN 1 ELSE IF ma = 3 \/ mb = 3 THEN 3 ELSE 1
        at(v, mm, i, j) == v[mm * (i - 1) + (IF mm = 3 THEN j ELSE 0) + 1]
    IN IF f \in Cmp /\ ma = 3
       THEN [k \in 1..Len(ia) |-> LET same == \A j \in 0..2 : at(va, 3, ia[k], j) = at(vb, 3, ib[k], j)
                                  IN IF f = "equal" THEN BoolI(same) ELSE BoolI(~same)]
       ELSE IF m = 1 THEN [k \in DOMAIN ia |-> Fv(f, va[ia[k]], vb[ib[k]])]
       ELSE [k \in 1..(3 * Len(ia)) |-> LET p == (k - 1) \div 3 + 1  j == (k - 1) % 3 IN Fv(f, at(va, ma, ia[p], j), at(vb, mb, ib[p], j))]
BinVars(heap, f, a, b, D, corr) ==
    LET ia == ByLabel(a.s, D)  ib == ByLabel(b.s, D)
        va == Vals(heap, a)  vb == Vals(heap, b)
        wa == Vars(heap, a)  wb == Vars(heap, b)
    IN IF corr THEN [k \in DOMAIN ia |-> CorrW(f, va[ia[k]], wa[ia[k]])]
       ELSE [k \in DOMAIN ia |-> Fw(f, va[ia[k]], IF HasVar(heap, a) THEN wa[ia[k]] ELSE 0, vb[ib[k]], IF HasVar(heap, b) THEN wb[ib[k]] ELSE 0)]
\* n := f(a, b); D: the shape of the result (any merge of the operands' shapes)
OpBin(heap, H, n, f, a, b, D) ==
    IF ~TypesOk(f, a.t, b.t) \/ ~Mergeable(a.s, b.s) \/ ~UOk(f, UnitOf(heap, a), UnitOf(heap, b)) THEN No(heap, H)
    ELSE LET U == LabelSet(a.s) \cup LabelSet(b.s)
             n2 == Cardinality(U)
             full == IF f \in Cmp \cup Logic THEN <<>> ELSE <<a, b>>    \* comparisons ignore variances
             hv == f \in Arith /\ (HasVar(heap, a) \/ HasVar(heap, b))
             DD == IF IsMerge(a.s, b.s, Ok(D)) THEN D ELSE <<>>
             E == IF Len(DD) = n2 THEN DD ELSE MergeOrdered(a.s, b.s)
             square == f = "mul" /\ HasVar(heap, a) /\ SameView(a, b)    \* may be evaluated as a power
             must == f \in Arith /\ ~square /\ (VarBcast(heap, E, a) \/ VarBcast(heap, E, b))
             maybe == f \in Arith /\ (VarBcast(heap, E, a) \/ VarBcastMaybe(heap, E, a) \/ VarBcastMaybe(heap, E, b))
             ot == OutType(f, a.t, b.t)
         IN IF must \/ (hv /\ ot = "vec") THEN No(heap, H)    \* vectors have no variances
            ELSE (IF maybe THEN No(heap, H) ELSE {}) \cup
                 (IF Len(DD) # n2 THEN {} ELSE
                  UNION {Alloc(heap, H, n, DD, BinVals(heap, f, a, b, DD), IF hv THEN BinVars(heap, f, a, b, DD, corr) ELSE <<>>,
                               hv, UOut(f, UnitOf(heap, a), UnitOf(heap, b)), ot) : corr \in (IF hv THEN CorrOpts(heap, a, b) ELSE {FALSE})})
\* h f= g
OpInPlace(heap, H, f, h, g) ==
    IF h.ro \/ ~InTypesOk(f, h.t, g.t) \/ ~Includes(h.s, g.s) \/ ~UOk(f, UnitOf(heap, h), UnitOf(heap, g))
       \/ (HasVar(heap, g) /\ ~HasVar(heap, h)) \/ VarBcast(heap, h.s, g) THEN No(heap, H)
    ELSE (IF VarBcastMaybe(heap, h.s, g) THEN No(heap, H) ELSE {}) \cup
         UNION {MaybeUnit(heap, H, h, UOut(f, UnitOf(heap, h), UnitOf(heap, g)),
                          SetVW(heap, h, BinVals(heap, f, h, g, h.s), IF HasVar(heap, h) THEN BinVars(heap, f, h, g, h.s, corr) ELSE <<>>))
                : corr \in CorrOpts(heap, h, g)}
\* unary: neg, abs, not
OpUn(heap, H, n, f, a) ==
    IF (f = "not" /\ (a.t # "bool" \/ UnitOf(heap, a) # NoUnit)) \/ (f = "abs" /\ a.t \notin Num) \/ (f = "neg" /\ a.t \notin Num \cup {"vec"}) THEN No(heap, H)
    ELSE LET v == Vals(heap, a)
             nv == [k \in DOMAIN v |-> CASE f = "neg" -> -v[k] [] f = "abs" -> (IF v[k] < 0 THEN -v[k] ELSE v[k]) [] f = "not" -> 1 - v[k]]
         IN (IF HasVar(heap, a) /\ (a.bc \/ ~Injective(a.c)) THEN No(heap, H) ELSE {}) \cup
            (IF HasVar(heap, a) /\ Volume(a.s) > 0 /\ ~Injective(a.c) THEN {}
             ELSE Alloc(heap, H, n, a.s, nv, Vars(heap, a), HasVar(heap, a), UnitOf(heap, a), a.t))
\* n := where(c, a, b)
OpWhere(heap, H, n, c, a, b, D) ==
    IF c.t # "bool" \/ a.t # b.t \/ ~Mergeable(c.s, a.s) \/ ~Mergeable(c.s, b.s) \/ ~Mergeable(a.s, b.s)
       \/ UnitOf(heap, c) # NoUnit \/ UnitOf(heap, a) # UnitOf(heap, b) THEN No(heap, H)
    ELSE LET U == LabelSet(c.s) \cup LabelSet(a.s) \cup LabelSet(b.s)
             okD == LabelSet(D) = U /\ NoDup(Labels(D)) /\ Includes(D, c.s) /\ Includes(D, a.s) /\ Includes(D, b.s)
                    /\ (a.s = c.s /\ b.s = c.s => D = c.s)
             ic == ByLabel(c.s, D)  ia == ByLabel(a.s, D)  ib == ByLabel(b.s, D)
             vc == Vals(heap, c)  va == Vals(heap, a)  vb == Vals(heap, b)
             wa == Vars(heap, a)  wb == Vars(heap, b)
             hv == HasVar(heap, a) \/ HasVar(heap, b)
             m == Comps(a.t)
         IN IF ~okD THEN {}
            ELSE Alloc(heap, H, n, D, [k \in 1..(m * Len(ic)) |-> LET p == (k - 1) \div m + 1  j == (k - 1) % m
                                                                  IN IF vc[ic[p]] = 1 THEN va[m * (ia[p] - 1) + j + 1] ELSE vb[m * (ib[p] - 1) + j + 1]],
                       IF hv THEN [k \in DOMAIN ic |-> IF vc[ic[k]] = 1 THEN (IF HasVar(heap, a) THEN wa[ia[k]] ELSE 0) ELSE (IF HasVar(heap, b) THEN wb[ib[k]] ELSE 0)] ELSE <<>>,
                       hv, UnitOf(heap, a), a.t)
\* h **= n with a constant exponent; num: exponent as integer, bad: not an integer, ev: uncertain exponent
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN 1 ELSE x * PowI(x, k - 1)
OpIPow(heap, H, h, k, bad, ev) ==
    IF h.ro \/ h.t \notin Num \ {"i4"} \/ ev \/ (bad /\ (UnitOf(heap, h) # <<1, 0, 0>> \/ h.t \in {"i8", "i4"})) THEN No(heap, H)
    ELSE LET u == UnitOf(heap, h)  v == Vals(heap, h)  w == Vars(heap, h) IN
         IF u # <<1, 0, 0>> /\ ~Whole(heap, h) THEN No(heap, H)
         ELSE {R(TRUE, WithUnit(SetVW(heap, h, [i \in DOMAIN v |-> PowI(v[i], k)],
                                      [i \in DOMAIN w |-> IF k = 0 THEN 0 ELSE k * k * PowI(v[i], k - 1) * PowI(v[i], k - 1) * w[i]]), h, <<u[1], u[2] * k, u[3] * k>>), H)}
              \cup (IF heap[h.b].v = <<>> \/ VarBcastMaybe(heap, h.s, h) THEN No(heap, H) ELSE {})

(* ---- comparison ---- *)
NaNTok == 2000000001
EqSeq(p, q, nan) == \A i \in DOMAIN p : p[i] = q[i] /\ (p[i] # NaNTok \/ nan)
Equal(heap, a, b, nan) ==
    /\ a.s = b.s /\ a.t = b.t /\ UnitOf(heap, a) = UnitOf(heap, b) /\ HasVar(heap, a) = HasVar(heap, b)
    /\ EqSeq(Vals(heap, a), Vals(heap, b), nan) /\ (HasVar(heap, a) => EqSeq(Vars(heap, a), Vars(heap, b), nan))
\* a view compared with itself is the same object
EqualNaN(heap, a, b) == Equal(heap, a, b, TRUE)

(* ---- what must hold in every state ---- *)
HandleOk(heap, h) ==
    /\ h.b \in DOMAIN heap /\ Valid(h.s) /\ Len(h.c) = Volume(h.s)
    /\ \A k \in DOMAIN h.c : h.c[k] >= 1 /\ h.c[k] + Comps(h.t) - 1 <= Len(heap[h.b].v)
    /\ (~h.ro => Injective(h.c))         \* one element is never writable at two positions
    /\ (HasVar(heap, h) => Len(heap[h.b].w) = Len(heap[h.b].v))
HeapOk(heap, H) == \A n \in DOMAIN H : HandleOk(heap, H[n])
=============================================================================
