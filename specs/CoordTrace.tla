----------------------------- MODULE CoordTrace -----------------------------
(* Checks recorded runs of transform_coords: which functions were called, when
   and with what, and what came back.                                        *)
EXTENDS Coords, TraceIO
VARIABLES l, P, A, called, bad
vars == <<l, P, A, called, bad>>
E == Trace[l]
None == [none |-> TRUE]
\* "value", "missing", "cycle" or "" (functions may run)
Verdict(p, a) == IF Ambiguous(p) THEN "value" ELSE IF Missing(p) # {} THEN "missing"
                 ELSE IF Cyclic(a.par) THEN "cycle" ELSE ""
Begin == /\ E.op = "begin" /\ P' = E /\ A' = (IF Ambiguous(E) THEN None ELSE Analyse(E))
         /\ bad' = Verdict(E, A') /\ called' = {}
\* everything rule i depends on has run completely
Runs(p, a, i) == LET r == p.rules[i] IN
    IF r.kind = "rename" THEN {} ELSE
    (IF RunsDense(p, a, r) THEN {<<r.id, "d">>} ELSE {}) \cup (IF RunsEvent(p, a, r) THEN {<<r.id, "e">>} ELSE {})
AllRuns(p, a, S) == UNION {Runs(p, a, i) : i \in S}
Before(p, a, i) == LET r == p.rules[i]
                       up == Up(a.par, Range(r.ins))
                   IN {RuleOf(p, n) : n \in up \cap a.prod}
CallOk == /\ bad = ""
          /\ \E i \in A.used : LET r == P.rules[i] IN
               /\ r.id = E.r /\ r.kind = "fn"
               /\ <<E.r, E.mode>> \in Runs(P, A, i)
               /\ E.args = IF E.mode = "d" THEN DenseArgs(P, A, r) ELSE EventArgs(P, A, r)
               /\ AllRuns(P, A, Before(P, A, i)) \subseteq called
          /\ <<E.r, E.mode>> \notin called
Call == /\ E.op = "call" /\ Judge(CallOk, l, IF bad = "" THEN <<A.used, called>> ELSE bad)
        /\ called' = called \cup {<<E.r, E.mode>>} /\ UNCHANGED <<P, A, bad>>
Got(c) == [n |-> c.n, d |-> c.d, e |-> c.e, dd |-> Range(c.dd), al |-> c.al, eal |-> c.eal]
EndOk ==
    /\ E.intact
    /\ CASE bad # "" -> E.err = bad /\ called = {}
         [] bad = "" /\ Faulty(P, A) # {} ->
              E.err = "type" /\ \E i \in Faulty(P, A) : Runs(P, A, i) \cap called # {}
         [] OTHER ->
              /\ called = AllRuns(P, A, A.used)
              /\ LET m == Renames(P, A) IN
                 IF Clash(NewDims(P, m)) THEN E.err \in {"", "rename"}
                 ELSE /\ E.err = "" /\ E.dims = NewDims(P, m)
                      /\ {Got(E.coords[i]) : i \in DOMAIN E.coords} = {OutCoord(P, A, m, n) : n \in OutNames(P, A)}
Expected == IF bad # "" THEN bad ELSE IF Faulty(P, A) # {} THEN "type"
            ELSE LET m == Renames(P, A) IN ToString(<<NewDims(P, m), {OutCoord(P, A, m, n) : n \in OutNames(P, A)}, AllRuns(P, A, A.used) \ called>>)
End == /\ E.op = "end" /\ Judge(EndOk, l, Expected) /\ UNCHANGED <<P, A, called, bad>>
Items == /\ E.op = "items" /\ Judge(E.got = E.n /\ E.runs = E.n, l, E.n) /\ UNCHANGED <<P, A, called, bad>>
Init == l = 1 /\ P = None /\ A = None /\ called = {} /\ bad = ""
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Call \/ End \/ Items)
Spec == Init /\ [][Next]_vars
=============================================================================
