------------------------- MODULE ElementArrayTrace -------------------------
(* Small arrays carry their contents; large arrays (op "big*") are described
   as runs <<start, step, count>> into which the recorder compresses them.  *)
EXTENDS ElementArray
VARIABLES l, big
E == Trace[l]
tvars == <<a, l, big>>
ObsOk(s, o) == \A x \in DOMAIN o :
     /\ o[x].set = s[x].set
     /\ o[x].size = (IF s[x].set THEN Len(s[x].e) ELSE -1)
     /\ o[x].empty = (s[x].set /\ s[x].e = <<>>)
     /\ o[x].e = s[x].e                 \* elements read via begin()..end()
     /\ o[x].ce = s[x].e                \* ... via const access
     /\ o[x].shared = FALSE             \* no other array has this buffer
     /\ (o[x].null => s[x].e = <<>>)    \* data() may be null only if empty
TSmall ==
   /\ big' = IF E.op = "start" THEN [x \in Names |-> <<>>] ELSE big
   /\ CASE E.op = "construct" -> Construct(E.x, E.s)
        [] E.op = "fill" -> Construct(E.x, [i \in 1..E.n |-> E.v])
        [] E.op = "overwrite" -> Construct(E.x, [i \in 1..E.n |-> E.v])
        [] E.op \in {"reset", "default"} -> Default(E.x)
        [] E.op \in {"copy", "assign"} -> Copy(E.x, E.y)
        [] E.op \in {"move", "moveassign"} -> Move(E.x, E.y)
        [] E.op = "resize" -> Resize(E.x, E.n)
        [] E.op = "write" -> Write(E.x, E.i, E.v)
        [] E.op = "bad" -> E.res = "refused" /\ UNCHANGED a   \* negative length
        [] E.op = "start" -> a' = [x \in Names |-> Null]
        [] OTHER -> FALSE
   /\ (Has(E, "obs") => ObsOk(a', E.obs))
\* large arrays: big is a function name -> sequence of runs
BigRuns(n, start, step) == IF n = 0 THEN <<>> ELSE <<[start |-> start, step |-> IF n = 1 THEN 0 ELSE step, n |-> n]>>
TBig ==
   /\ UNCHANGED a
   /\ CASE E.op = "bigfill" -> big' = [big EXCEPT ![E.x] = BigRuns(E.n, E.v, 0)]
        [] E.op = "bigrange" -> big' = [big EXCEPT ![E.x] = BigRuns(E.n, E.v, E.step)]
        [] E.op = "bigcopy" -> big' = [big EXCEPT ![E.x] = big[E.y]]
        [] E.op = "bigresize" -> big' = [big EXCEPT ![E.x] = BigRuns(E.n, 0, 0)]
        [] OTHER -> FALSE
   /\ \A x \in DOMAIN E.bobs : E.bobs[x] = big'[x]
TInit == Init /\ l = 1 /\ big = [x \in Names |-> <<>>]
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TSmall \/ TBig)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
