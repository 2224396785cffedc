------------------------- MODULE DimRegistryTrace --------------------------
(* Checks histories recorded from the real registry against DimRegistry. *)
EXTENDS DimRegistry, TraceIO
VARIABLES l
tvars == <<ids, l>>
E == Trace[l]
TInit == Init /\ l = 1
\* a label was created from a string: id obtained, name reported back
TIntern == E.op = "intern" /\ Intern(E.label, E.id) /\ E.name = E.label
\* predefined label: the compile-time constant is the label of that name
TConst == E.op = "const" /\ Intern(E.label, E.id) /\ E.name = E.label
\* equality and order of two handles, and their labels' equality
TCmp == /\ E.op = "cmp" /\ E.eq = (E.a = E.b) /\ E.ne = ~E.eq
        /\ ~(E.lt /\ E.gt) /\ (E.eq <=> ~E.lt /\ ~E.gt)
        /\ UNCHANGED ids
\* n distinct new labels were created; the number of distinct ids, and whether
\* any of them coincided with an id given out before or misreported its name
TFill == /\ E.op = "fill" /\ E.distinct = E.n /\ E.clash = 0 /\ E.badname = 0
         /\ UNCHANGED ids
\* the registry is full: creation refused, the label is not half-registered
TRefused == /\ E.op = "refused" /\ E.label \notin DOMAIN ids /\ E.full /\ UNCHANGED ids
\* a new process
TReset == E.op = "reset" /\ ids' = <<>>
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ (TIntern \/ TConst \/ TCmp \/ TFill \/ TRefused \/ TReset)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
