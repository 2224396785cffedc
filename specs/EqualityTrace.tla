---------------------------- MODULE EqualityTrace ----------------------------
(* Comparisons and copies made by the real code against Equality (P21).
   Every event stands alone.                                                  *)
EXTENDS Equality
VARIABLE l
E == Trace[l]
Verdict ==
    CASE E.op = "eq" ->
           LET t == Eq(E.a, E.b, FALSE)  n == Eq(E.a, E.b, TRUE) IN
           /\ E.eq = t /\ E.qe = t /\ E.ne = ~t /\ E.en = ~t
           /\ E.nan = n /\ E.nan2 = n
           /\ E.aa = Eq(E.a, E.a, FALSE) /\ E.aan = TRUE
           /\ E.a2 = E.a /\ E.b2 = E.b
      \* r: the copy; r2: the copy after everything in a changed; a2: a after everything in a copy changed
      [] E.op = "copy" -> /\ E.ok /\ E.r = DeepCopy(E.a)
                          /\ E.same = Eq(E.a, E.a, FALSE) /\ E.nan
                          /\ E.a2 = E.a /\ E.r2 = E.r
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
