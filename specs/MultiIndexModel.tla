-------------------------- MODULE MultiIndexModel ---------------------------
(* The odometer: contiguous dimensions are flattened, then a coordinate vector
   is advanced by relative strides with rewinding.  TLC checks for every shape,
   every stride assignment of two operands and every interleaving of stepping
   and jumping that the memory indices equal Iteration's definition.          *)
EXTENDS Iteration
CONSTANTS Ext, Str, MaxDim
VARIABLES shp, s1, s2,      \* configuration, outer to inner
          fl,               \* flattened: [shape, a, b], inner to outer
          coord, mem, k     \* odometer state; k: ghost position
vars == <<shp, s1, s2, fl, coord, mem, k>>

\* flatten from the innermost dimension
RECURSIVE Flat(_, _, _, _)
Flat(sh, a, b, acc) ==
   IF sh = <<>> THEN acc
   ELSE LET n == Len(sh)
            m == Len(acc.shape)
            merge == /\ m > 0 /\ n > 1     \* the outermost dimension is kept (index 0 is never flattened)
                     /\ a[n] = acc.shape[m] * acc.a[m] /\ b[n] = acc.shape[m] * acc.b[m]
            acc2 == IF merge THEN [acc EXCEPT !.shape[m] = @ * sh[n]]
                    ELSE [shape |-> Append(acc.shape, sh[n]), a |-> Append(acc.a, a[n]), b |-> Append(acc.b, b[n])]
        IN Flat(SubSeq(sh, 1, n - 1), SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1), acc2)
Seqs(S) == UNION {[1..n -> S] : n \in 1..MaxDim}
Vol == Prod(shp)
D == Len(fl.shape)
Init == /\ shp \in Seqs(Ext) /\ s1 \in [DOMAIN shp -> Str] /\ s2 \in [DOMAIN shp -> Str]
        /\ fl = Flat(shp, s1, s2, [shape |-> <<>>, a |-> <<>>, b |-> <<>>])
        /\ coord = [i \in 1..D |-> 0] /\ mem = <<0, 0>> /\ k = 0
\* one step; the carry loop stops before the outermost dimension
RECURSIVE Carry(_, _, _)
Carry(d, c, m) == IF d < D /\ c[d] = fl.shape[d]
                  THEN Carry(d + 1, [c EXCEPT ![d] = 0, ![d + 1] = @ + 1],
                             <<m[1] + fl.a[d + 1] - c[d] * fl.a[d], m[2] + fl.b[d + 1] - c[d] * fl.b[d]>>)
                  ELSE <<c, m>>
Inc == /\ k < Vol
       /\ LET r == Carry(1, [coord EXCEPT ![1] = @ + 1], <<mem[1] + fl.a[1], mem[2] + fl.b[1]>>)
          IN coord' = r[1] /\ mem' = r[2]
       /\ k' = k + 1 /\ UNCHANGED <<shp, s1, s2, fl>>
RECURSIVE Ex(_, _)
Ex(i, sh) == IF Len(sh) = 1 THEN <<i>> ELSE <<i % sh[1]>> \o Ex(i \div sh[1], Tail(sh))
Jump == \E i \in 0..Vol :
       /\ coord' = Ex(i, fl.shape) /\ k' = i
       /\ mem' = <<Dot(coord', fl.a), Dot(coord', fl.b)>>
       /\ UNCHANGED <<shp, s1, s2, fl>>
Next == Inc \/ Jump
Spec == Init /\ [][Next]_vars
\* the property
Correct == k < Vol => mem = <<Mem(shp, s1, k), Mem(shp, s2, k)>>
EndDetected == (coord = Ex(Vol, fl.shape)) <=> (k = Vol)
InnerRun == k < Vol => \A i \in 0..(fl.shape[1] - coord[1] - 1) :
              <<mem[1] + i * fl.a[1], mem[2] + i * fl.b[1]>> = <<Mem(shp, s1, k + i), Mem(shp, s2, k + i)>>
\* generator: configurations
GenInit == Init /\ Emit([shape |-> shp, strides |-> <<s1, s2>>])
GenNext == FALSE /\ UNCHANGED vars
=============================================================================
