---------------------------- MODULE ShapesModel -----------------------------
(* State machine of one shape under all mutations; laws of the binary
   operations are checked for every pair of reachable shapes.               *)
EXTENDS Shapes
CONSTANTS L, N
VARIABLES s, t, last
\* t is a second shape; last: did the last operation succeed
vars == <<s, t, last>>
Init == s = <<>> /\ t = <<>> /\ last = TRUE
Apply(r) == IF r.ok THEN s' = r.v /\ last' = TRUE ELSE s' = s /\ last' = FALSE
Mutate == \E x \in L, n \in N \cup {-1} :
            \/ Apply(AddOuter(s, x, n)) \/ Apply(AddInner(s, x, n)) \/ Apply(Resize(s, x, n))
            \/ Apply(Erase(s, x)) \/ Apply(SetSize(s, x, n))
            \/ \E y \in L : Apply(ReplaceKey(s, x, y))
Next == (Mutate /\ UNCHANGED t) \/ (t' = s /\ UNCHANGED <<s, last>>)
Spec == Init /\ [][Next]_vars
AlwaysValid == Valid(s) /\ Valid(t)
RefusedUnchanged == [][last' = FALSE => s' = s]_vars
Merge(a, b) == MergeOrdered(a, b)
Laws ==
  /\ Mergeable(s, t) /\ SameOrder(s, t) =>
        LET m == Merge(s, t) IN
        /\ Valid(m) /\ IsMerge(s, t, Ok(m)) /\ SameUnordered(m, Merge(t, s))
        /\ Merge(m, t) = m /\ Merge(s, m) = m
        /\ LabelSet(Intersection(s, t).v) = LabelSet(s) \cap LabelSet(t)
  /\ Transpose(Transpose(s, <<>>).v, Labels(s)).v = s
  /\ Volume(Transpose(s, <<>>).v) = Volume(s)
  /\ \A x \in LabelSet(s) :
        /\ SliceShape(s, x, 0, Ext(s, x), 1) = Ok(s)
        /\ \A b \in 0..Ext(s, x), st \in 1..2 :
             LET r == SliceShape(s, x, b, Ext(s, x), st) IN
             r.ok /\ Ext(r.v, x) * st >= Ext(s, x) - b /\ (Ext(r.v, x) - 1) * st < Ext(s, x) - b + (IF Ext(r.v, x) = 0 THEN 1 ELSE 0)
        /\ Fold(s, x, << <<"q", 1>>, <<x, Ext(s, x)>> >>).ok
        /\ IsEdges(Resize(s, x, Ext(s, x) + 1).v, s, x) = FALSE
        \* concatenating the two halves of a split gives the original extent
        /\ \A b \in 0..Ext(s, x) : Ext(ConcatShape(SliceShape(s, x, 0, b, 1).v, SliceShape(s, x, b, Ext(s, x), 1).v, x), x) = Ext(s, x)
  /\ s # <<>> => \A I \in 0..(Volume(s) - 1) : LET q == Reverse(Shape(s)) IN Dot(Extract(I, q), Reverse(RowMajor(s))) = I
=============================================================================
