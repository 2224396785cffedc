----------------------------- MODULE BinsTrace -----------------------------
(* Checks a recorded history of operations on binned variables against Bins. *)
EXTENDS Bins, TraceIO
VARIABLES l, S, seen
E == Trace[l]
Step == /\ E.op # "reset"
        /\ LET sn == [n \in DOMAIN seen \cup DOMAIN E.obs |-> IF n \in DOMAIN E.obs THEN E.obs[n] ELSE seen[n]] IN
           \E r \in Outcomes(S, E) :
             /\ r.ok = E.ok
             /\ DOMAIN r.S.H = DOMAIN sn
             /\ \A n \in DOMAIN sn : Content(r.S, r.S.H[n]) = sn[n]
             /\ S' = r.S /\ seen' = sn
Reset == E.op = "reset" /\ S' = Empty /\ seen' = [h \in {} |-> 0]
TInit == l = 1 /\ S = Empty /\ seen = [h \in {} |-> 0]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step \/ Reset)
TSpec == TInit /\ [][TNext]_<<l, S, seen>>
Inv == Sound(S)
=============================================================================
