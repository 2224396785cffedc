----------------------------- MODULE RecordsTrace -----------------------------
(* Sorting and filtering of the real code against Records (P20).  Every event
   stands alone.                                                              *)
EXTENDS Records
VARIABLE l
E == Trace[l]
Res == IF E.ok THEN E.r ELSE <<>>
\* keys i -> (i * mul + add) mod period; r: numbers (from 0) of the records in sorted order
LongKey(i) == (i * E.mul + E.add) % E.period
Long == /\ E.ok /\ Len(E.r) = E.n /\ ToSetQ(E.r) = 0..(E.n - 1)
        /\ \A k \in 1..(E.n - 1) : IF E.desc THEN LongKey(E.r[k]) >= LongKey(E.r[k + 1]) ELSE LongKey(E.r[k]) <= LongKey(E.r[k + 1])
Verdict ==
    CASE E.op = "sort" -> SortOk(E.a, E.key, E.desc, E.ok, Res)
      [] E.op = "nokey" -> ~E.ok
      [] E.op = "extract" -> ExtractOk(E.a, E.key, E.ok, Res)
      [] E.op = "ranges" -> E.ok /\ SameObject(Select(E.a, E.x, FlatRanges(E.q)), Res)
      [] E.op = "vsort" -> VSortOk(E.a, E.x, E.desc, E.ok, Res)
      [] E.op = "issorted" -> IsSortedOk(E.a, E.x, E.desc, E.ok, Res)
      [] E.op = "allsorted" -> AllSortedOk(E.a, E.x, E.desc, E.ok, Res)
      [] E.op = "same" -> E.a = E.r
      [] E.op = "long" -> Long
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
