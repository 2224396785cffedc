---------------------------- MODULE LabelledModel ----------------------------
(* The laws of operations between labelled arrays (P15), checked for all pairs
   of small arrays with the operators that judge the real code.                *)
EXTENDS Labelled
CONSTANTS Extent, Coords, MaskKinds, WithY
VARIABLES a, b
vars == <<a, b>>
X == <<"x", Extent>>
None == [n \in {} |-> 0]
V(s, t, u, v) == [d |-> s, t |-> t, u |-> u, hv |-> FALSE, v |-> v, w |-> <<>>, ro |-> FALSE]
Fill(s, v) == [i \in 1..Volume(s) |-> v]
\* coord "x": absent, or aligned/unaligned with one of two values, along x, with edges or without dimension
CoordOf(s, k) ==
    LET d == IF k[2] = "point" THEN s ELSE IF k[2] = "edges" /\ s # <<>> THEN << <<"x", Extent + 1>> >> ELSE <<>>
    IN V(d, "i8", <<1, 0, 0>>, Fill(d, k[3])) @@ [al |-> k[1]]
CoordSets(s) == {None} \cup {[n \in {"x"} |-> CoordOf(s, k)] : k \in BOOLEAN \X Coords \X {1, 2}}
BoolVar(s, v) == V(s, "bool", NoUnit, v)
MaskSets(s) == {None} \cup (IF "scalar" \in MaskKinds THEN {[n \in {"m"} |-> BoolVar(<<>>, <<i>>)] : i \in {0, 1}} ELSE {})
    \cup (IF s # <<>> THEN {[n \in {"m"} |-> BoolVar(s, q)] : q \in [1..Volume(s) -> {0, 1}]} ELSE {})
    \cup {[n \in {"k"} |-> BoolVar(<<>>, <<1>>)]}
    \cup {[n \in {"m"} |-> [BoolVar(s, Fill(s, 0)) EXCEPT !.u = <<1, 0, 0>>]]}
ShapeSet == {<<>>, <<X>>} \cup (IF WithY THEN {<<X, <<"y", 2>>>>, <<<<"y", 2>>>>} ELSE {})
\* data: distinct bits
DataOf(s) == {BoolVar(s, [i \in 1..Volume(s) |-> (i + k) % 2]) : k \in {0, 1}}
ArraysOf(s) == {[data |-> d, coords |-> c, masks |-> m, name |-> ""] : d \in DataOf(s), c \in CoordSets(s), m \in MaskSets(s)}
All == UNION {{r \in ArraysOf(s) : ArrayFits(r)} : s \in ShapeSet}
\* the left operand is fixed first
Nil == [data |-> BoolVar(<<>>, <<0>>), coords |-> None, masks |-> None, name |-> ""]
Init == a \in All /\ b = Nil
Next == b = Nil /\ b' \in All /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
f == "xor"
\* results of an operation that gives a new array
Results(p, q) == IF BinRefused(f, p, q) \/ Unfit(p, q, UnionCoords(p.coords, q.coords)) THEN {}
                 ELSE {o.v : o \in {o \in VarBin(f, p.data, q.data, BinShape(p, q)) : o.ok}}
Symmetric ==
    /\ (Results(a, b) = {}) = (Results(b, a) = {})
    /\ ~BinRefused(f, a, b) => LET c == UnionCoords(a.coords, b.coords)  d == UnionCoords(b.coords, a.coords) IN SameMap(c, d) /\ SameAl(c, d)
\* every aligned coord of an operand is in the result, with its values
Carries == ~Clash(a.coords, b.coords) => LET c == UnionCoords(a.coords, b.coords) IN
    /\ \A o \in {a, b} : \A n \in DOMAIN o.coords : o.coords[n].al => n \in DOMAIN c /\ c[n].al /\ Same(c[n], o.coords[n])
    /\ \A n \in DOMAIN c : c[n].al => Aligned(a.coords, n) \/ Aligned(b.coords, n)
AlignedOf(m) == [n \in {n \in DOMAIN m : m[n].al} |-> m[n]]
Associative == \A c \in CoordSets(b.data.d) :
    LET p == a.coords  q == b.coords IN
    ~Clash(p, q) /\ ~Clash(q, c) /\ ~Clash(p, c) =>
        SameMap(AlignedOf(UnionCoords(UnionCoords(p, q), c)), AlignedOf(UnionCoords(p, UnionCoords(q, c))))
\* what is accepted in place is accepted otherwise, with the same data and masks
Slices == {<<>>} \cup (IF HasDim(a.data.d, "x") THEN {<<"x", i, -1, 1>> : i \in 0..(Extent - 1)} \cup {<<"x", i, j, 1>> : i, j \in 0..Extent} ELSE {})
GoodSlices == {s \in Slices : s = <<>> \/ SliceArray(a, s[1], s[2], s[3], s[4]).ok}
\* the array after the operation on slice sl (<<>>: refused)
After(sl) == IF InMust(f, a, Part(a, sl), b, FALSE, sl) THEN {}
             ELSE {[a EXCEPT !.data = o.v @@ [ro |-> FALSE], !.masks = UnionIn(a.data.d, a.masks, b.masks, sl)] : o \in {o \in InOuts(f, a, sl, b, <<>>) : o.ok}}
InPlace == \A r \in After(<<>>) :
    /\ Results(a, b) # {} /\ \A o \in Results(a, b) : Same(o, r.data)
    /\ IsUnion(a.masks, b.masks, r.masks) /\ ArrayFits(r)
\* an operation on a slice is the operation on the part, and leaves the rest alone
Partly == \A sl \in GoodSlices : \A r \in After(sl) :
    /\ \A o \in VarBin(f, Part(a, sl).data, b.data, BinShape(Part(a, sl), b)) : o.ok => Same(o.v, Part(r, sl).data)
    /\ IsUnion(Part(a, sl).masks, b.masks, Part(r, sl).masks)
    /\ sl # <<>> => LET in == ToSetQ(SliceCells(a.data.d, Identity(Volume(a.data.d)), sl[1], sl[2], sl[3], sl[4])) IN
         /\ \A k \in DOMAIN a.data.v : k \notin in => r.data.v[k] = a.data.v[k]
         /\ DOMAIN r.masks = DOMAIN a.masks
\* masks only grow, coords never change, and only correct outcomes are accepted
Judged == \A sl \in GoodSlices :
    /\ \A r \in After(sl) : /\ \A n \in DOMAIN a.masks : \A k \in DOMAIN a.masks[n].v : a.masks[n].v[k] <= r.masks[n].v[k]
                            /\ InOk(f, a, sl, b, FALSE, <<>>, TRUE, r)
                            /\ \A k \in DOMAIN r.data.v : ~InOk(f, a, sl, b, FALSE, <<>>, TRUE, [r EXCEPT !.data.v[k] = 1 - @])
                            /\ r # a => ~InOk(f, a, sl, b, FALSE, <<>>, FALSE, r)
    /\ After(sl) = {} => InOk(f, a, sl, b, FALSE, <<>>, FALSE, a) /\ ~InOk(f, a, sl, b, FALSE, <<>>, TRUE, a)
=============================================================================
