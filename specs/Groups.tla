-------------------------------- MODULE Groups --------------------------------
(* Split, apply, combine (P19): slices are grouped by the values of a key, or by
   bins of it, and every group is reduced.  Records as in module Arrays.     *)
EXTENDS Events

\* distinct values in rising order, NaN last
RECURSIVE Ascending(_)
Ascending(s) == IF s = {} THEN <<>> ELSE LET least == CHOOSE a \in s : \A b \in s : Leq(a, b) IN <<least>> \o Ascending(s \ {least})
GroupValues(q) == Ascending(ToSetQ(q) \ {NaNTok}) \o (IF NaNTok \in ToSetQ(q) THEN <<NaNTok>> ELSE <<>>)
\* members of every group, in order: from the key or from its bins
Members(q, bins, e) ==
    LET vals == IF bins THEN <<>> ELSE GroupValues(q)
        n == IF bins THEN Len(e) - 1 ELSE Len(vals)
    IN [i \in 1..n |-> SelectSeq([j \in DOMAIN q |-> j], LAMBDA j : IF bins THEN InEdges(e, q[j]) = i ELSE q[j] = vals[i])]
\* S with the dimension x replaced by the one of the groups
Grouped(S, x, gd, n) == [i \in DOMAIN S |-> IF S[i][1] = x THEN <<gd, n>> ELSE S[i]]

\* r: result for array a, grouped by key over x
GroupOk(f, a, x, key, bins, e, gd, loose, ok, r) ==
    LET S == a.data.d
        binned == a.data.t = "bin"
        q == key.v
        M == Members(q, bins, e.v)
        n == Len(M)
        D == Grouped(S, x, gd, n)
        O == Without(S, {x})
        cells == Rows(S, {x})
        mk == MaskOf(S, a.masks, {x})
        kept == [k \in 1..Volume(O) |-> \E m \in DOMAIN a.masks : ~DependsOn(a.masks[m], {x}) /\ a.masks[m].v[ByLabel(a.masks[m].d, O)[k]] = 1]
        pos(k, i) == (k - 1) * n + i
        live(k, i) == SelectSeq([j \in DOMAIN M[i] |-> cells[k][M[i][j]]], LAMBDA c : ~mk[c])
        stay(m) == {c \in DOMAIN m : ~DependsOn(m[c], {x})}
        at == ByLabel(r.data.d, O \o << <<gd, n>> >>)
        elt == IF binned THEN a.data.bt ELSE a.data.t
        comps == IF binned THEN 1 ELSE NComps(a.data)
        sameKey == /\ r.coords[gd].d = << <<gd, IF bins THEN Len(e.v) ELSE n>> >> /\ r.coords[gd].u = key.u
                   /\ (IF bins THEN SameVar(r.coords[gd], e) ELSE r.coords[gd].v = GroupValues(q) /\ r.coords[gd].t = key.t)
    IN IF ~ok THEN loose
       ELSE /\ Len(r.data.d) = Len(D) /\ LabelSet(r.data.d) = LabelSet(D) /\ \A y \in LabelSet(D) : Ext(r.data.d, y) = Ext(D, y)
            /\ r.data.u = a.data.u /\ r.data.hv = a.data.hv
            /\ sameKey
            /\ DOMAIN r.coords = (stay(a.coords) \ {gd}) \cup {gd}
            /\ \A c \in stay(a.coords) \ {gd} : SameVar(r.coords[c], a.coords[c]) /\ r.coords[c].al = a.coords[c].al
            /\ DOMAIN r.masks = stay(a.masks) /\ \A m \in stay(a.masks) : SameVar(r.masks[m], a.masks[m])
            /\ IF f = "concat" THEN
                 /\ r.data.bt = a.data.bt /\ r.data.cn = a.data.cn /\ r.data.mn = a.data.mn /\ r.data.cu = a.data.cu
                 /\ \A k \in 1..Volume(O) : \A i \in 1..n :
                      LET got == r.data.ev[at[pos(k, i)]] IN got = Join(a.data, live(k, i)) \/ (kept[k] /\ got = <<>>)
               ELSE
                 /\ r.data.t = RedOut(f, elt)
                 /\ \A k \in 1..Volume(O) : \A i \in 1..n : \A m \in 1..comps :
                      LET cs == live(k, i)
                          row == IF binned THEN LET ev == Unmasked(a.data, Join(a.data, cs)) IN [j \in DOMAIN ev |-> <<ev[j][1], ev[j][2]>>]
                                 ELSE [j \in DOMAIN cs |-> El(a.data, cs[j], m)]
                          p == comps * (at[pos(k, i)] - 1) + m
                      IN \E w \in Reduce(f, elt, row) : r.data.v[p] = w[1] /\ (r.data.hv => r.data.w[p] = w[2] \/ (f \in Means /\ IsNaN(w[1])))
=============================================================================
