---------------------------- MODULE EventsTrace ----------------------------
(* Binning, grouping, histogramming of the real code against Events
   (P16, P18).  Every event stands alone.                                    *)
EXTENDS Events
VARIABLE l
E == Trace[l]
\* many bins of width one, recorded as the non-empty ones: [<<bin, ids>>]
ManyBins ==
    LET lo == E.lo  n == E.n
        want(k) == SelectSeq(E.ev, LAMBDA e : e[1] - lo = k)
        used == {E.ev[i][1] - lo : i \in DOMAIN E.ev} \cap (0..(n - 1))
    IN E.ok /\ {E.r[i][1] : i \in DOMAIN E.r} = used /\ Len(E.r) = Cardinality(used)
       /\ \A i \in DOMAIN E.r : LET w == want(E.r[i][1]) IN E.r[i][2] = [j \in DOMAIN w |-> w[j][2]]
\* many events: number i has coord i mod period; per bin <<count, first, least and largest step>>
Long == E.ok /\ Len(E.r) = E.n /\ \A k \in 1..E.n :
    LET c == E.lo + k - 1 IN
    IF c >= E.period \/ c < 0 THEN E.r[k] = <<0, -1, 0, 0>>
    ELSE LET cnt == ((E.len - 1 - c) \div E.period) + 1 IN
         E.r[k] = <<cnt, c, IF cnt = 1 THEN 0 ELSE E.period, IF cnt = 1 THEN 0 ELSE E.period>>
Verdict ==
    CASE E.op = "bin" -> BinOk(E.a, E.keys, E.erase, E.mixed, E.ok, IF E.ok THEN E.r ELSE <<>>)
      [] E.op = "same" -> E.a = E.r
      [] E.op = "many" -> ManyBins
      [] E.op = "long" -> Long
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
