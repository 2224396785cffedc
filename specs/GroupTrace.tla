------------------------------ MODULE GroupTrace ------------------------------
(* groupby of the real code against Groups (P19).  Every event stands alone.  *)
EXTENDS Groups
VARIABLE l
E == Trace[l]
\* must be refused
Refuse ==
    LET a == E.a  S == a.data.d  key == E.key
    IN \/ ~E.has                                        \* no such coord
       \/ Len(key.d) # 1 \/ key.hv
       \/ ~HasDim(S, key.d[1][1]) \/ Ext(S, key.d[1][1]) # key.d[1][2]
       \/ (E.f # "concat" /\ ~HasDim(S, E.x))
       \/ (E.f = "concat" /\ a.data.t # "bin")
       \/ (E.f \in Means /\ a.data.u = NoUnit)
       \/ (E.bins /\ (Len(E.e.d) # 1 \/ E.e.u # key.u \/ ~Rising(E.e.v)))
       \/ (E.gd # E.x /\ HasDim(S, E.gd))
Binned == E.a.data.t = "bin"
\* may be refused: reductions of masked bins (except joining them), means of bins
Loose == \/ E.mixed
         \/ (Binned /\ E.f # "concat" /\ (E.f \in Means \/ E.a.data.mn # <<>> \/ \E m \in DOMAIN E.a.masks : DependsOn(E.a.masks[m], {E.x})))
\* joining bins also joins dimensions whose coord depends on the one that goes away
Joins == E.f = "concat" /\ \E y \in LabelSet(E.a.data.d) \ {E.x} : y \in DOMAIN E.a.coords /\ Len(E.a.coords[y].d) # 1 /\ DependsOn(E.a.coords[y], {E.x})
NoMembers == LET M == Members(E.key.v, E.bins, E.e.v) IN \A i \in DOMAIN M : M[i] = <<>>
WrongType == LET t == IF Binned THEN E.a.data.bt ELSE E.a.data.t IN E.f # "concat" /\ t \notin RedTypes(E.f)
\* counts of a long key: number i has key i mod period
Cnt(n, c) == IF c >= n \/ c < 0 THEN 0 ELSE ((n - 1 - c) \div E.period) + 1
Long == E.ok /\ Len(E.r) = E.n /\ \A k \in 1..E.n : LET c == E.lo + k - 1 IN E.r[k] = (IF c >= E.period \/ c < 0 THEN 0 ELSE 2 * Cnt(E.len, c) - Cnt(E.half, c))
Verdict ==
    CASE E.op = "group" -> IF Refuse THEN ~E.ok
                           ELSE IF E.x # E.key.d[1][1] THEN TRUE
                           ELSE IF WrongType THEN ~E.ok \/ NoMembers
                           ELSE IF Joins THEN TRUE
                           ELSE GroupOk(E.f, E.a, E.x, E.key, E.bins, E.e, E.gd, Loose, E.ok, IF E.ok THEN E.r ELSE <<>>)
      [] E.op = "same" -> E.a = E.r
      [] E.op = "long" -> Long
      [] E.op = "dsfail" -> ~E.fine      \* a dataset is refused only if one of its items is
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
