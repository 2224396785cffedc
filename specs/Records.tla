------------------------------- MODULE Records -------------------------------
(* Sorting and filtering (P20): an array or dataset is a sequence of records
   along a dimension x: slices of the data and of everything else depending on x.
   Records of arrays and datasets as in DataArrays.                            *)
EXTENDS DataArrays
Orderable == {"f8", "f4", "i8", "i4", "str", "dt"}
SortKeys == Orderable \cup {"bool"}
IsDataset(o) == "items" \in DOMAIN o
ShapeOf(o) == IF IsDataset(o) THEN o.d ELSE o.data.d

(* ---- selecting ---- *)
\* elements idx (from 1) along x
PickAlong(v, x, idx) ==
    LET j == PosOf(v.d, x)  D == [v.d EXCEPT ![j] = <<x, Len(idx)>>] IN
    PickFrom(v, D, Gather(v.d, Identity(Volume(v.d)), D, LAMBDA p, i : IF i = j THEN idx[p[j] + 1] - 1 ELSE p[i]))
\* edges along x mean nothing for a selection
Stays(S, m, x) == {n \in DOMAIN m : ~HasDim(m[n].d, x) \/ Ext(m[n].d, x) = Ext(S, x)}
PickMap(S, m, x, idx) == [n \in Stays(S, m, x) |-> IF HasDim(m[n].d, x) THEN PickAlong(m[n], x, idx) ELSE m[n]]
Select(o, x, idx) ==
    IF IsDataset(o) THEN [d |-> [i \in DOMAIN o.d |-> IF o.d[i][1] = x THEN <<x, Len(idx)>> ELSE o.d[i]],
                          coords |-> PickMap(o.d, o.coords, x, idx),
                          items |-> [n \in DOMAIN o.items |-> [data |-> PickAlong(o.items[n].data, x, idx), masks |-> PickMap(o.d, o.items[n].masks, x, idx)]]]
    ELSE [data |-> PickAlong(o.data, x, idx), coords |-> PickMap(o.data.d, o.coords, x, idx), masks |-> PickMap(o.data.d, o.masks, x, idx)]
SameObject(p, q) ==
    IF IsDataset(p) THEN /\ IsDataset(q) /\ p.d = q.d /\ SameMap(p.coords, q.coords) /\ SameAl(p.coords, q.coords)
                         /\ DOMAIN p.items = DOMAIN q.items
                         /\ \A n \in DOMAIN p.items : SameVar(p.items[n].data, q.items[n].data) /\ SameMap(p.items[n].masks, q.items[n].masks)
    ELSE SameArray(p, q) /\ SameAl(p.coords, q.coords)
Chosen(cond) == SelectSeq([i \in DOMAIN cond.v |-> i], LAMBDA i : cond.v[i] = 1)
ExtractRefused(o, c) == c.t # "bool" \/ Len(c.d) # 1 \/ ~HasDim(ShapeOf(o), c.d[1][1]) \/ Ext(ShapeOf(o), c.d[1][1]) # c.d[1][2]
ExtractOk(o, c, ok, r) == IF ExtractRefused(o, c) THEN ~ok ELSE ok /\ SameObject(Select(o, c.d[1][1], Chosen(c)), r)
\* ranges <<begin, end>> of x, from 0
RECURSIVE FlatRanges(_)
FlatRanges(q) == IF q = <<>> THEN <<>> ELSE [i \in 1..(q[1][2] - q[1][1]) |-> q[1][1] + i] \o FlatRanges(Tail(q))

(* ---- sorting ---- *)
\* order of keys: NaN is last, or first when descending
KeyLess(a, b) == IF IsNaN(b) THEN ~IsNaN(a) ELSE ~IsNaN(a) /\ Lss(a, b)
SortRefused(o, k) == k.t \notin SortKeys \/ Len(k.d) # 1 \/ ~HasDim(ShapeOf(o), k.d[1][1]) \/ Ext(ShapeOf(o), k.d[1][1]) # k.d[1][2]
\* numbers of records with keys equal to the i-th, and of those before them
Tied(q, i) == {j \in DOMAIN q : q[j] = q[i]}
Ahead(q, i, desc) == {j \in DOMAIN q : IF desc THEN KeyLess(q[i], q[j]) ELSE KeyLess(q[j], q[i])}
RECURSIVE RankOrder(_, _, _)
RankOrder(q, desc, left) ==
    IF left = {} THEN <<>>
    ELSE LET i == CHOOSE i \in left : \A j \in left : (IF desc THEN ~KeyLess(q[i], q[j]) ELSE ~KeyLess(q[j], q[i])) /\ (q[i] = q[j] => i <= j)
         IN <<i>> \o RankOrder(q, desc, left \ {i})
\* the stable order
Order(q, desc) == RankOrder(q, desc, DOMAIN q)
\* the i-th record
Record(o, x, i) == Select(o, x, <<i>>)
Blank(o, x) == Select(o, x, <<>>)
\* records with equal keys may come in any order
SortOk(o, k, desc, ok, r) ==
    IF SortRefused(o, k) THEN ~ok
    ELSE LET x == k.d[1][1]  n == Len(k.v)  q == k.v
             u == IF IsDataset(o) THEN [y \in DOMAIN o \ {"valid"} |-> o[y]] ELSE o
             best == Select(o, x, Order(q, desc))
             distinct == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
         IN /\ ok
            /\ \/ SameObject(best, r)
               \/ /\ ~distinct
                  /\ ShapeOf(r) = ShapeOf(o)
                  /\ SameObject(Blank(o, x), Select(r, x, <<>>))
                  /\ LET mine == [i \in 1..n |-> Record(best, x, i)]
                         got == [i \in 1..n |-> Record(r, x, i)]
                         Occurrences(seq, e, lo, hi) == Cardinality({i \in lo..hi : SameObject(seq[i], e)})
                     IN \A i \in 1..n : LET lo == 1 + Cardinality(Ahead(q, i, desc))  hi == lo + Cardinality(Tied(q, i)) - 1 IN
                          \A p \in lo..hi : Occurrences(mine, mine[p], lo, hi) = Occurrences(got, mine[p], lo, hi)

(* ---- sorting the elements of a variable along x ---- *)
\* NaN last, whichever way
ElemLess(a, b, desc) == IF IsNaN(a) THEN FALSE ELSE IF IsNaN(b) THEN TRUE ELSE IF desc THEN Lss(b, a) ELSE Lss(a, b)
VSortOk(v, x, desc, ok, r) ==
    IF v.t \notin Orderable \/ ~HasDim(v.d, x) THEN ~ok \/ (HasDim(v.d, x) /\ Volume(v.d) = 0)
    ELSE IF ~ok THEN PosOf(v.d, x) # Len(v.d)       \* only along the inner dimension
    ELSE /\ r.d = v.d /\ r.t = v.t /\ r.u = v.u /\ r.hv = v.hv
         /\ LET Q == Rows(v.d, LabelSet(v.d) \ {x})   \* one line for every position along x
                L == Rows(v.d, {x})
            IN \A k \in DOMAIN L :
                 LET line == L[k]
                     E1 == [j \in DOMAIN line |-> El(v, line[j], 1)]
                     E2 == [j \in DOMAIN line |-> El(r, line[j], 1)]
                 IN /\ \A j \in 1..(Len(line) - 1) : ~ElemLess(E2[j + 1][1], E2[j][1], desc)
                    /\ \A e \in ToSetQ(E1) : Cardinality({j \in DOMAIN E1 : E1[j] = e}) = Cardinality({j \in DOMAIN E2 : E2[j] = e})

(* ---- tests ---- *)
InOrder(q, desc) == \A j \in 1..(Len(q) - 1) : ~IsNaN(q[j]) /\ ~IsNaN(q[j + 1]) /\ (IF desc THEN Leq(q[j + 1], q[j]) ELSE Leq(q[j], q[j + 1]))
LineVals(v, x) == LET L == Rows(v.d, {x}) IN [k \in DOMAIN L |-> [j \in DOMAIN L[k] |-> v.v[L[k][j]]]]
IsSorted(v, x, desc) == LET L == LineVals(v, x) IN [k \in DOMAIN L |-> BoolI(InOrder(L[k], desc))]
TestRefused(v, x) == ~HasDim(v.d, x)
TestMay(v, x) == v.hv \/ v.t \notin Orderable
IsSortedOk(v, x, desc, ok, r) ==
    IF TestRefused(v, x) THEN ~ok
    ELSE IF ~ok THEN TestMay(v, x)
    ELSE /\ ~TestMay(v, x) \/ Ext(v.d, x) < 2 \/ Volume(v.d) = 0
         /\ r.d = Without(v.d, {x}) /\ r.t = "bool" /\ r.u = NoUnit /\ ~r.hv
         /\ r.v = (IF Ext(v.d, x) < 2 THEN [k \in 1..Volume(Without(v.d, {x})) |-> 1] ELSE IsSorted(v, x, desc))
AllSortedOk(v, x, desc, ok, r) ==
    IF TestRefused(v, x) THEN ~ok
    ELSE IF ~ok THEN TestMay(v, x)
    ELSE r = (Ext(v.d, x) < 2 \/ \A k \in DOMAIN LineVals(v, x) : InOrder(LineVals(v, x)[k], desc))
=============================================================================
