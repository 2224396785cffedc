------------------------------- MODULE Shapes -------------------------------
(* P03. Labelled shapes (scipp::Sizes / scipp::Dimensions): a sequence of
   <<label, extent>> pairs.  Operators define the result of every operation or
   Refused.  Shared by the specifications of variables and data arrays.      *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
Refused == [ok |-> FALSE]
Ok(v) == [ok |-> TRUE, v |-> v]
Invalid == "<invalid>"

Labels(s) == [i \in DOMAIN s |-> s[i][1]]
LabelSet(s) == {s[i][1] : i \in DOMAIN s}
Shape(s) == [i \in DOMAIN s |-> s[i][2]]
HasDim(s, x) == \E i \in DOMAIN s : s[i][1] = x
PosOf(s, x) == CHOOSE i \in DOMAIN s : s[i][1] = x
Ext(s, x) == s[PosOf(s, x)][2]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
Volume(s) == Prod(Shape(s))
NoDup(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
Valid(s) == NoDup(Labels(s)) /\ \A i \in DOMAIN s : s[i][2] >= 0 /\ s[i][1] # Invalid
Reverse(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
ToSetQ(q) == {q[i] : i \in DOMAIN q}
Suffix(q, i) == SubSeq(q, i, Len(q))
FoldSum(q) == LET RECURSIVE S(_) S(r) == IF r = <<>> THEN 0 ELSE Head(r) + S(Tail(r)) IN S(q)

(* ---- mutations ---- *)
AddOuter(s, x, n) == IF x = Invalid \/ n < 0 \/ HasDim(s, x) THEN Refused ELSE Ok(<< <<x, n>> >> \o s)
AddInner(s, x, n) == IF x = Invalid \/ n < 0 \/ HasDim(s, x) THEN Refused ELSE Ok(Append(s, <<x, n>>))
Resize(s, x, n) == IF n < 0 \/ ~HasDim(s, x) THEN Refused ELSE Ok([s EXCEPT ![PosOf(s, x)] = <<x, n>>])
Erase(s, x) == IF ~HasDim(s, x) THEN Refused ELSE Ok(SelectSeq(s, LAMBDA e : e[1] # x))
SetSize(s, x, n) == IF x = Invalid \/ n < 0 THEN Refused
                ELSE IF HasDim(s, x) THEN (IF Ext(s, x) = n THEN Ok(s) ELSE Refused)
                ELSE Ok(Append(s, <<x, n>>))
ReplaceKey(s, a, b) == IF ~HasDim(s, a) \/ (a # b /\ HasDim(s, b)) THEN Refused
                       ELSE Ok([s EXCEPT ![PosOf(s, a)] = <<b, Ext(s, a)>>])

(* ---- functions ---- *)
\* a slice object: refused at construction if malformed; e = -1: point slice
SliceOk(b, e, st) == b >= 0 /\ (e = -1 \/ b <= e) /\ st > 0
CeilDiv(a, b) == (a + b - 1) \div b
SliceShape(s, x, b, e, st) ==
    IF ~HasDim(s, x) \/ (IF e = -1 THEN b + 1 ELSE e) > Ext(s, x) THEN Refused
    ELSE IF e = -1 THEN Erase(s, x)
    ELSE Resize(s, x, CeilDiv(e - b, st))
Includes(a, b) == \A x \in LabelSet(b) : HasDim(a, x) /\ Ext(a, x) = Ext(b, x)
SameUnordered(a, b) == Len(a) = Len(b) /\ Includes(a, b)
Mergeable(a, b) == \A x \in LabelSet(a) \cap LabelSet(b) : Ext(a, x) = Ext(b, x)
SubOrder(q, S) == SelectSeq(q, LAMBDA x : x \in S)
Common(a, b) == LabelSet(a) \cap LabelSet(b)
\* common labels appear in the same order in both
SameOrder(a, b) == SubOrder(Labels(a), Common(a, b)) = SubOrder(Labels(b), Common(a, b))
\* direct sum; when the orders agree no label of either operand is transposed
RECURSIVE MergeOrdered(_, _)
MergeOrdered(a, b) ==
    IF a = <<>> THEN b
    ELSE IF b # <<>> /\ HasDim(b, a[1][1])
         THEN LET i == PosOf(b, a[1][1]) IN
              SubSeq(b, 1, i - 1) \o <<a[1]>> \o MergeOrdered(Tail(a), Suffix(b, i + 1))
         ELSE <<a[1]>> \o MergeOrdered(Tail(a), b)
IsMerge(a, b, r) ==
    IF ~Mergeable(a, b) THEN ~r.ok
    ELSE /\ r.ok
         /\ LET m == r.v IN
            /\ NoDup(Labels(m)) /\ LabelSet(m) = LabelSet(a) \cup LabelSet(b)
            /\ Includes(m, a) /\ Includes(m, b)
            /\ SubOrder(Labels(m), LabelSet(a)) = Labels(a)      \* order of a is favoured
            /\ SubOrder(Labels(m), LabelSet(b) \ LabelSet(a)) = SubOrder(Labels(b), LabelSet(b) \ LabelSet(a))
            /\ SameOrder(a, b) => m = MergeOrdered(a, b)
Intersection(a, b) == IF ~Mergeable(a, b) THEN Refused
                      ELSE Ok(SelectSeq(a, LAMBDA e : HasDim(b, e[1])))
Transpose(s, labs) ==
    LET q == IF labs = <<>> THEN Reverse(Labels(s)) ELSE labs IN
    IF Len(q) # Len(s) \/ ToSetQ(q) # LabelSet(s) THEN Refused
    ELSE Ok([i \in DOMAIN q |-> <<q[i], Ext(s, q[i])>>])
RECURSIVE Splice(_, _, _)
Splice(s, x, to) == IF s = <<>> THEN <<>>
                    ELSE IF s[1][1] = x THEN to \o Tail(s) ELSE <<s[1]>> \o Splice(Tail(s), x, to)
Fold(s, x, to) == IF ~HasDim(s, x) THEN Refused
                  ELSE LET r == Splice(s, x, to) IN
                       IF ~NoDup(Labels(r)) \/ Volume(to) # Ext(s, x) THEN Refused ELSE Ok(r)
\* one extra element along x: edges.  shape: the coord, data: the data.
IsEdges(shape, data, x) ==
    /\ x # Invalid /\ HasDim(data, x)
    /\ shape = <<>> \/ \A y \in LabelSet(data) \ {x} : HasDim(shape, y) /\ Ext(shape, y) = Ext(data, y)
    /\ Ext(data, x) = (IF HasDim(shape, x) THEN Ext(shape, x) + 1 ELSE 2)
\* rename pairs p, no label both source and target
Chained(p) == \E i, j \in DOMAIN p : (i # j /\ (p[i][1] = p[j][1] \/ p[i][2] = p[j][1])) \/ (i # j /\ p[i][2] = p[j][2])
RenameTo(p, x) == IF \E i \in DOMAIN p : p[i][1] = x THEN p[CHOOSE i \in DOMAIN p : p[i][1] = x][2] ELSE x
Rename(s, p, strict) ==
    LET r == [i \in DOMAIN s |-> <<RenameTo(p, s[i][1]), s[i][2]>>] IN
    IF (strict /\ \E i \in DOMAIN p : ~HasDim(s, p[i][1])) \/ ~NoDup(Labels(r)) THEN Refused ELSE Ok(r)
ConcatShape(a, b, x) ==   \* of two shapes that agree except along x
    LET la == IF HasDim(a, x) THEN Ext(a, x) ELSE 1
        lb == IF HasDim(b, x) THEN Ext(b, x) ELSE 1
    IN Append(SelectSeq(a, LAMBDA e : e[1] # x), <<x, la + lb>>)
\* row-major strides
RowMajor(s) == [i \in DOMAIN s |-> Prod(Shape(Suffix(s, i + 1)))]
Dot(p, q) == FoldSum([i \in DOMAIN p |-> p[i] * q[i]])
\* decomposition of a flat index, first extent varies fastest
RECURSIVE Extract(_, _)
Extract(I, shp) == IF Len(shp) = 1 THEN <<I>>
                   ELSE IF shp[1] = 0 THEN <<0>> \o Extract(I, Tail(shp))
                   ELSE <<I % shp[1]>> \o Extract(I \div shp[1], Tail(shp))
\* all memory offsets reachable with strides
Reachable(shp, str) == {Dot(x, str) : x \in {f \in [DOMAIN shp -> 0..4] : \A i \in DOMAIN shp : f[i] < shp[i]}}
=============================================================================
