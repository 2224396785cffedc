----------------------------- MODULE ViewsTrace -----------------------------
(* Checks a recorded history of operations on variables against Views.       *)
EXTENDS Views
VARIABLES l, heap, H, seen
E == Trace[l]
G == H[E.g]
Outcomes ==
  CASE E.op = "new" -> Alloc(heap, H, E.h, E.s, E.v, E.w, E.hv, E.u, E.t)
    [] E.op = "assign" -> OpAssign(heap, H, E.h, G)
    [] E.op = "slice" -> OpSlice(heap, H, E.h, G, E.x, E.b, E.e, E.st)
    [] E.op = "transpose" -> OpTranspose(heap, H, E.h, G, E.labs)
    [] E.op = "fold" -> OpFold(heap, H, E.h, G, E.x, E.to)
    [] E.op = "flatten" -> OpFlatten(heap, H, E.h, G, E.labs, E.x, E.shared)
    [] E.op = "rename" -> OpRename(heap, H, E.h, G, E.p, E.strict)
    [] E.op = "broadcast" -> OpBroadcast(heap, H, E.h, G, E.s)
    [] E.op = "squeeze" -> OpSqueeze(heap, H, E.h, G, E.labs)
    [] E.op = "const" -> OpConst(heap, H, E.h, G)
    [] E.op = "field" -> OpField(heap, H, E.h, G, E.k)
    [] E.op = "copy" -> CopyOf(heap, H, E.h, G)
    [] E.op = "concat" -> OpConcat(heap, H, E.h, [i \in DOMAIN E.gs |-> H[E.gs[i]]], E.x)
    [] E.op = "write" -> OpWrite(heap, H, G, E.i, E.v, E.w)
    [] E.op = "setunit" -> OpSetUnit(heap, H, G, E.u)
    [] E.op = "setvar" -> OpSetVar(heap, H, G, E.by # "", IF E.by = "" THEN G ELSE H[E.by])
    [] E.op = "copyto" -> OpCopyTo(heap, H, G, H[E.to])
    [] E.op = "setslice" -> OpSetSlice(heap, H, H[E.to], E.x, E.b, E.e, E.st, G)
    [] E.op = "bin" -> OpBin(heap, H, E.h, E.f, G, H[E.by], E.d)
    [] E.op = "inplace" -> OpInPlace(heap, H, E.f, G, H[E.by])
    [] E.op = "un" -> OpUn(heap, H, E.h, E.f, G)
    [] E.op = "where" -> OpWhere(heap, H, E.h, H[E.cond], G, H[E.by], E.d)
    [] E.op = "ipow" -> OpIPow(heap, H, G, E.k, E.bad, E.ev)
Clean(o) == [d |-> o.d, v |-> o.v, w |-> o.w, hv |-> o.hv, u |-> o.u, t |-> o.t, ro |-> o.ro]
Step == /\ E.op \notin {"reset", "eq"}
        /\ LET sn == [n \in DOMAIN seen \cup DOMAIN E.obs |-> IF n \in DOMAIN E.obs THEN Clean(E.obs[n]) ELSE seen[n]] IN
           \E r \in Outcomes :
             /\ r.ok = E.ok
             /\ DOMAIN r.H = DOMAIN sn
             /\ \A n \in DOMAIN sn : Obs(r.heap, r.H[n]) = sn[n]
             /\ heap' = r.heap /\ H' = r.H /\ seen' = sn
Reset == E.op = "reset" /\ heap' = <<>> /\ H' = <<>> /\ seen' = <<>>
\* results of comparing all pairs of handles
Eq == /\ E.op = "eq" /\ UNCHANGED <<heap, H, seen>>
      /\ \A i, j \in DOMAIN E.hs : LET a == H[E.hs[i]]  b == H[E.hs[j]] IN
           /\ E.eq[i][j] = Equal(heap, a, b, FALSE) /\ E.ne[i][j] = ~E.eq[i][j]
           /\ E.eqnan[i][j] = EqualNaN(heap, a, b)
TInit == l = 1 /\ heap = <<>> /\ H = <<>> /\ seen = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Step \/ Reset \/ Eq)
TSpec == TInit /\ [][TNext]_<<l, heap, H, seen>>
Inv == HeapOk(heap, H)
=============================================================================
