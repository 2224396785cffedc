----------------------------- MODULE MetaTrace -----------------------------
(* Checks a recorded history of operations on data arrays and datasets
   against Meta.                                                             *)
EXTENDS Meta
VARIABLES l, S, seen
E == Trace[l]
Strip(q) == [f \in DOMAIN q \ {"nm", "fit"} |-> q[f]]
Ordered(p, q) == IF q.k = "ds" THEN SameUnordered(p.s, q.s) /\ [p EXCEPT !.s = q.s] = Strip(q) ELSE p = Strip(q)
Matches(T, h, q) == /\ T.H[h].k = q.k
                    /\ Ordered(ObsObj(T, T.H[h]), q)
                    /\ q.fit
                    /\ q.k = "da" => q.nm \in T.H[h].nm
Step == /\ E.op # "reset"
        /\ LET sn == [n \in DOMAIN seen \cup DOMAIN E.obs |-> IF n \in DOMAIN E.obs THEN E.obs[n] ELSE seen[n]] IN
           \E r \in Outcomes(S, E) :
             /\ r.ok = E.ok
             /\ DOMAIN r.S.H = DOMAIN sn
             /\ \A n \in DOMAIN sn : Matches(r.S, n, sn[n])
             /\ S' = r.S /\ seen' = sn
Reset == E.op = "reset" /\ S' = Empty /\ seen' = <<>>
TInit == l = 1 /\ S = Empty /\ seen = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step \/ Reset)
TSpec == TInit /\ [][TNext]_<<l, S, seen>>
Inv == AllFit(S)
=============================================================================
