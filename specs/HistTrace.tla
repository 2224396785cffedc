------------------------------ MODULE HistTrace ------------------------------
(* Histogramming, rebinning, lookup of the real code against Histograms (P18).
   Every event stands alone.                                                 *)
EXTENDS Histograms
VARIABLE l
E == Trace[l]
Get(f) == IF E.ok THEN E.r ELSE <<>>
\* number i (of len) has coord i mod period and weight 1, the second half weight 2
Cnt(n, c) == IF c >= n \/ c < 0 THEN 0 ELSE ((n - 1 - c) \div E.period) + 1
Long == E.ok /\ Len(E.r) = E.n /\ \A k \in 1..E.n :
    LET c == E.lo + k - 1 IN E.r[k] = (IF c >= E.period \/ c < 0 THEN 0 ELSE 2 * Cnt(E.len, c) - Cnt(E.half, c))
\* sparse events in many bins: [<<coord, weight>>] against non-empty [<<bin, sum>>]
Many ==
    LET used == {E.ev[i][1] - E.lo : i \in DOMAIN E.ev} \cap (0..(E.n - 1))
        sum(k) == LET w == SelectSeq(E.ev, LAMBDA e : e[1] - E.lo = k) IN FoldSum([j \in DOMAIN w |-> w[j][2]])
    IN E.ok /\ {E.r[i][1] : i \in DOMAIN E.r} = used /\ Len(E.r) = Cardinality(used) /\ \A i \in DOMAIN E.r : E.r[i][2] = sum(E.r[i][1])
ScaleOk ==
    LET a == E.a  f == E.f  x == E.x  b == a.data
        has == x \in DOMAIN f.coords /\ HasDim(f.coords[x].d, x) /\ HasDim(f.data.d, x) /\ x \in ToSetQ(b.cn)
        good == /\ ~Unsorted(f.coords[x], x) /\ f.coords[x].u = b.cu[CoordIx(b, x) - 2]
                /\ Agree(b.d, Without(f.data.d, {x})) /\ LabelSet(f.data.d) \ {x} \subseteq LabelSet(b.d)
                /\ LabelSet(f.coords[x].d) \ {x} \subseteq LabelSet(b.d)
        \* masks of the function, other than those along x, are added in place
        stay == {n \in DOMAIN f.masks : ~DependsOn(f.masks[n], {x})}
        larger == \E n \in stay \cap DOMAIN a.masks : ~(LabelSet(f.masks[n].d) \subseteq LabelSet(a.masks[n].d))
        union(n) == IF n \notin DOMAIN a.masks THEN f.masks[n]
                    ELSE IF n \notin stay THEN a.masks[n]
                    ELSE LET m == a.masks[n]  at == ByLabel(f.masks[n].d, m.d) IN [m EXCEPT !.v = [i \in DOMAIN m.v |-> MaxI(m.v[i], f.masks[n].v[at[i]])]]
    IN IF ~has THEN ~E.ok /\ SameArray(a, E.r)
       ELSE IF ~EdgesOf(f.data.d, f.coords[x], x) THEN TRUE
       ELSE IF E.ok THEN /\ good /\ ~larger /\ ScaleEvents(b, f, x, E.r.data) /\ SameMap(a.coords, E.r.coords)
                         /\ DOMAIN E.r.masks = DOMAIN a.masks \cup stay /\ \A n \in DOMAIN E.r.masks : SameVar(E.r.masks[n], union(n))
       ELSE (~good \/ larger \/ E.mixed) /\ SameArray(a, E.r)
Verdict ==
    CASE E.op = "hist" -> HistOk(E.a, E.key, E.mixed, E.ok, Get(E))
      [] E.op = "rebin" -> RebinOk(E.a, E.x, E.e, E.mixed, E.ok, Get(E))
      [] E.op \in {"map", "prev"} -> LookupOk(E.a, E.x, E.v, E.hasfill, E.fill, E.op = "prev", E.mixed, E.ok, Get(E))
      [] E.op = "scale" -> ScaleOk
      [] E.op = "same" -> E.a = E.r
      [] E.op = "long" -> Long
      [] E.op = "many" -> Many
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
