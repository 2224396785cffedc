---------------------------- MODULE LabelledTrace ----------------------------
(* Operations between labelled arrays of the real code against Labelled (P15).
   Every event stands alone.                                                   *)
EXTENDS Labelled
VARIABLE l
E == Trace[l]
Res == IF E.ok THEN E.r ELSE <<>>
Unchanged == E.a2 = E.a /\ E.b2 = E.b
Verdict ==
    CASE E.op = "bin" -> BinOk(E.f, E.a, E.va, E.b, E.vb, E.ok, Res) /\ Unchanged
      [] E.op = "dbin" -> DsBinOk(E.f, E.a, E.va, E.b, E.vb, E.ok, Res) /\ Unchanged
      [] E.op = "in" -> InOk(E.f, E.a, E.sl, E.b, E.vb, E.alias, E.ok, E.a2) /\ (E.alias = <<>> => E.b2 = E.b)
      [] E.op = "din" -> DsInOk(E.f, E.a, E.sl, E.b, E.vb, E.alias, E.ok, E.a2) /\ (E.alias = <<>> => E.b2 = E.b)
Step == Judge(Verdict, l, E.op)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step
TSpec == TInit /\ [][TNext]_l
=============================================================================
