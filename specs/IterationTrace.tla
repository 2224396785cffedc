--------------------------- MODULE IterationTrace ---------------------------
(* Validates recorded uses of MultiIndex, ViewIndex and ElementArrayView.
   State: the visit sequence of the current configuration and the position.  *)
EXTENDS Iteration
VARIABLES l, v, p
E == Trace[l]
tvars == <<l, v, p>>
Stay == UNCHANGED <<v, p>>
\* construction may be refused only if there are more dimensions than supported
MaxOpDim == 6
NewDense == /\ E.op = "dense" /\ p' = 0
            /\ IF E.ok = TRUE THEN v' = DenseVisits(E.shape, E.strides) ELSE E.ok = FALSE /\ Len(E.shape) > MaxOpDim /\ v' = <<>>
\* construction is refused exactly if bin sizes differ
NewBinned == /\ E.op = "binned"
             /\ IF SizesAgree(E.shape, E.opnds)
                THEN E.ok /\ v' = BinnedVisits(E.shape, E.opnds, E.inner, E.sd) /\ p' = 0
                ELSE ~E.ok /\ v' = <<>> /\ p' = 0
Get == E.op = "get" /\ p < Len(v) /\ E.m = v[p + 1] /\ ~E.atend /\ Stay
AtEnd == E.op = "atend" /\ E.val = (p = Len(v)) /\ Stay
Inc == E.op = "inc" /\ p < Len(v) /\ p' = p + 1 /\ UNCHANGED v
Dec == E.op = "dec" /\ p > 0 /\ p' = p - 1 /\ UNCHANGED v
Jump == E.op = "jump" /\ p' = E.i /\ E.i <= Len(v) /\ UNCHANGED v
ToEnd == E.op = "end" /\ p' = Len(v) /\ UNCHANGED v
\* jump to bin E.b, with the configuration repeated in the event
JumpBin == E.op = "jumpbin" /\ UNCHANGED v /\ p' = Before(E.shape, E.opnds, E.inner, E.sd, E.b)
\* all elements from position / bin lo up to hi, visited by the chunked loop
Range == E.op = "range" /\ E.m = SubSeq(v, E.lo + 1, E.hi) /\ Stay
BinRange == /\ E.op = "binrange" /\ Stay
            /\ E.m = SubSeq(v, Before(E.shape, E.opnds, E.inner, E.sd, E.lo) + 1, Before(E.shape, E.opnds, E.inner, E.sd, E.hi))
All == E.op = "all" /\ E.m = v /\ Stay            \* begin .. end
ViewOk ==
        /\ E.values = [i \in 1..Prod(E.shape) |-> E.offset + Mem(E.shape, E.str, i - 1)]
        /\ E.byindex = E.values /\ E.reversed = [i \in DOMAIN E.values |-> E.values[Len(E.values) + 1 - i]]
        /\ E.distance = Len(E.values)
        /\ E.contiguous = (\A i \in DOMAIN E.str : E.str[i] = Prod(SubSeq(E.shape, i + 1, Len(E.shape))))
\* one-operand views carry plain numbers
View == /\ E.op = "view" /\ Stay
        /\ IF ~E.ok THEN Len(E.shape) > MaxOpDim ELSE ViewOk
\* view of a view with other iteration dimensions, labels matched
ReView == /\ E.op = "review" /\ Stay
          /\ LET bad == \E i \in DOMAIN E.to, j \in DOMAIN E.from : E.to[i][1] = E.from[j][1] /\ E.from[j][2] < E.to[i][2]
                 str == [i \in DOMAIN E.to |-> IF \E j \in DOMAIN E.from : E.from[j][1] = E.to[i][1]
                                               THEN E.str[CHOOSE j \in DOMAIN E.from : E.from[j][1] = E.to[i][1]] ELSE 0]
                 shp == [i \in DOMAIN E.to |-> E.to[i][2]]
             IN IF ~E.ok THEN bad \/ Len(E.to) > MaxOpDim
                ELSE IF bad THEN FALSE
                ELSE E.values = [i \in 1..Prod(shp) |-> E.offset + Mem(shp, str, i - 1)]
MemSet(o) == {o.offset + Mem(o.shape, o.str, i) : i \in 0..(Prod(o.shape) - 1)}
\* overlap detection: views reported as not overlapping are identical or disjoint
Overlap == /\ E.op = "overlap" /\ Stay
           /\ ~E.val => (E.a = E.b \/ MemSet(E.a) \cap MemSet(E.b) = {})
TInit == l = 1 /\ v = <<>> /\ p = 0
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ (NewDense \/ NewBinned \/ Get \/ AtEnd \/ Inc \/ Dec \/ Jump \/ ToEnd \/ JumpBin \/ Range \/ BinRange
             \/ All \/ View \/ ReView \/ Overlap)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
