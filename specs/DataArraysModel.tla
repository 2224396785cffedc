-------------------------- MODULE DataArraysModel --------------------------
(* Laws of the shape operations of DataArrays on all small data arrays: every
   data shape, every combination of two coords and a mask of every shape that fits. *)
EXTENDS DataArrays
CONSTANTS MaxExt, Rich
VARIABLES S, c1, c2, m1, step
Dims2 == {"x", "y"}
Shapes2 == {<<>>} \cup {<< <<a, i>> >> : a \in Dims2, i \in 0..MaxExt}
           \cup UNION {{<< <<p[1], i>>, <<p[2], j>> >> : i, j \in 0..MaxExt} : p \in {<<"x", "y">>, <<"y", "x">>}}
Extra == {<< <<"w", 2>> >>, << <<"x", 2>>, <<"w", 2>> >>, << <<"w", 2>>, <<"y", 1>> >>}
Bigger(s) == {[s EXCEPT ![i] = <<s[i][1], s[i][2] + 1>>] : i \in DOMAIN s}
Metas == {s \in Shapes2 \cup UNION {Bigger(s) : s \in Shapes2} \cup Extra : Volume(s) > 0}
V(s, off) == [d |-> s, v |-> [i \in 1..Volume(s) |-> i + off], w |-> <<>>, hv |-> FALSE, u |-> <<1, 0, 0>>, t |-> "f8", al |-> TRUE]
A == [data |-> V(S, 0), coords |-> [x |-> V(c1, 100), c |-> V(c2, 200)], masks |-> [m |-> V(m1, 300)]]
\* items are treated independently of each other except that an item may decide
\* whether an operation is refused: Rich bounds how many of them are non-scalar
Few == Cardinality({i \in 1..3 : <<c1, c2, m1>>[i] # <<>>}) <= Rich
Init == S \in Shapes2 /\ c1 = <<>> /\ c2 = <<>> /\ m1 = <<>> /\ step = 0
Next == \/ step = 0 /\ step' = 1 /\ c1' \in {v \in Metas : Fits(S, v)} /\ UNCHANGED <<S, c2, m1>>
        \/ step = 1 /\ step' = 2 /\ c2' \in {v \in Metas : Fits(S, v)} /\ UNCHANGED <<S, c1, m1>>
        \/ step = 2 /\ step' = 3 /\ m1' \in {v \in Metas : Fits(S, v)} /\ UNCHANGED <<S, c1, c2>>
Spec == Init /\ [][Next]_<<S, c1, c2, m1, step>>
TypeOk == ArrayFits(A)
\* a multi-dimensional mask with edges along x cannot be joined
NoMaskEdges(x) == ~(Len(m1) > 1 /\ HasDim(m1, x) /\ HasDim(S, x) /\ Ext(m1, x) = Ext(S, x) + 1)
Join2 == \A x \in LabelSet(S) : NoMaskEdges(x) => \A k \in 1..(Ext(S, x) - 1) :
           LET p == SliceArray(A, x, 0, k, 1)  q == SliceArray(A, x, k, Ext(S, x), 1)  r == ConcatArrays(<<p.v, q.v>>, x)
           IN ArrayFits(p.v) /\ r.ok /\ SameArray(r.v, A)
Points == \A x \in LabelSet(S) : (NoMaskEdges(x) /\ Ext(S, x) > 0) =>
           LET r == ConcatArrays([i \in 1..Ext(S, x) |-> SliceArray(A, x, i - 1, -1, 1).v], x)
               same(a, b) == Content(PickFrom(a, b.d, ByLabel(a.d, b.d))) = Content(b)
           IN r.ok /\ same(r.v.data, A.data) /\ (\A n \in {"x", "c"} : same(r.v.coords[n], A.coords[n])) /\ same(r.v.masks["m"], A.masks["m"])
Ranges == \A x \in LabelSet(S) : \A b, e \in 0..Ext(S, x) : b < e => \A b2, e2 \in 0..(e - b) : b2 < e2 =>
           SameArray(SliceArray(SliceArray(A, x, b, e, 1).v, x, b2, e2, 1).v, SliceArray(A, x, b + b2, b + e2, 1).v)
OrderOfSlices == \A b \in 0..(MaxExt - 1) : (HasDim(S, "x") /\ HasDim(S, "y") /\ b < Ext(S, "x") /\ b < Ext(S, "y")) =>
           SameArray(SliceArray(SliceArray(A, "x", b, b + 1, 1).v, "y", b, -1, 1).v, SliceArray(SliceArray(A, "y", b, -1, 1).v, "x", b, b + 1, 1).v)
Unfolds == \A x \in LabelSet(S) : \A i, j \in 1..MaxExt : (i * j = Ext(S, x) /\ Ext(S, x) > 0) =>
           LET f == FoldArray(A, x, << <<"a", i>>, <<"b", j>> >>)  r == FlattenArray(f.v, FALSE, <<"a", "b">>, x)
           IN f.ok /\ ArrayFits(f.v) /\ r.ok /\ SameArray(r.v, A)
TransposeBack == LET t == TransposeArray(A, <<>>) IN t.ok /\ SameArray(TransposeArray(t.v, Labels(S)).v, A)
\* flattening keeps every element of the data in order, and metadata fit
Flattens == \A n \in 1..Len(S) : LET r == FlattenArray(A, FALSE, SubSeq(Labels(S), 1, n), "f") IN r.ok => ArrayFits(r.v) /\ r.v.data.v = A.data.v
Laws == (step = 3 /\ Few) => (TypeOk /\ Join2 /\ Points /\ Ranges /\ OrderOfSlices /\ Unfolds /\ TransposeBack /\ Flattens)
Constraint == Few
=============================================================================
