----------------------------- MODULE Iteration -----------------------------
(* P02. What iterating over an operation's operands must visit.
   A configuration: the iteration shape (outer to inner), one stride vector per
   operand; for binned operands additionally the bin table and inner layout.  *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE SumQ(_)
SumQ(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumQ(Tail(q))
\* coordinates of the k-th element in row-major order
RECURSIVE Coord(_, _)
Coord(shp, k) == IF shp = <<>> THEN <<>>
                 ELSE LET m == Prod(Tail(shp)) IN <<k \div m>> \o Coord(Tail(shp), k % m)
Dot(p, q) == SumQ([i \in DOMAIN p |-> p[i] * q[i]])
Mem(shp, str, k) == Dot(Coord(shp, k), str)
\* dense operands: sequence of tuples, one memory index per operand
DenseVisits(shp, strs) ==
    [k1 \in 1..Prod(shp) |-> LET c == Coord(shp, k1 - 1) IN [j \in DOMAIN strs |-> Dot(c, strs[j])]]

(* Binned: opnds[j] = [binned, str (bin dims), inner (strides of the buffer), idx (bin table)].
   inner: buffer dims shape (outer to inner); sd: which of them the bins slice. *)
BinOf(o, pos) == o.idx[pos + 1]
BinSize(o, pos) == BinOf(o, pos)[2] - BinOf(o, pos)[1]
Sizes(shp, opnds, b) == {BinSize(opnds[j], Mem(shp, opnds[j].str, b)) : j \in {i \in DOMAIN opnds : opnds[i].binned}}
SizesAgree(shp, opnds) == \A b \in 0..(Prod(shp) - 1) : Cardinality(Sizes(shp, opnds, b)) = 1
BinVisits(shp, opnds, inner, sd, b) ==
    LET n == CHOOSE n \in Sizes(shp, opnds, b) : TRUE
        ishp == [inner EXCEPT ![sd] = n]
    IN [k1 \in 1..Prod(ishp) |->
          LET c == Coord(ishp, k1 - 1) IN
          [j \in DOMAIN opnds |->
             LET o == opnds[j]  pos == Mem(shp, o.str, b) IN
             IF o.binned THEN Dot(c, o.inner) + o.inner[sd] * BinOf(o, pos)[1] ELSE pos]]
RECURSIVE Cat(_, _, _, _, _)
Cat(shp, opnds, inner, sd, b) == IF b = 0 THEN <<>>
    ELSE Cat(shp, opnds, inner, sd, b - 1) \o BinVisits(shp, opnds, inner, sd, b - 1)
BinnedVisits(shp, opnds, inner, sd) == Cat(shp, opnds, inner, sd, Prod(shp))
\* number of elements before bin b
Before(shp, opnds, inner, sd, b) == Len(Cat(shp, opnds, inner, sd, b))
=============================================================================
