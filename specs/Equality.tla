------------------------------ MODULE Equality ------------------------------
(* Equality of variables, data arrays and datasets, and copies (P21).
   Records as in DataArrays.                                                  *)
EXTENDS DataArrays
\* what takes part: everything but read-only flags, names of arrays, layout
Facts(v) == [k \in DOMAIN v \ {"ro"} |-> v[k]]
\* "x = x" for numbers, with or without NaN
NaNFree(v) == IF v.t = "bin" THEN \A k \in DOMAIN v.ev : \A i \in DOMAIN v.ev[k] : \A j \in DOMAIN v.ev[k][i] : v.ev[k][i][j] # NaNTok
              ELSE NaNTok \notin ToSetQ(v.v) \cup ToSetQ(v.w)
\* no bins: nothing is known about the events
Empty(v) == Volume(v.d) = 0
EqVar(p, q, nan) ==
    /\ p.d = q.d /\ p.t = q.t
    /\ IF p.t = "bin" THEN TRUE ELSE p.u = q.u /\ p.hv = q.hv
    /\ IF Empty(p) THEN TRUE ELSE [k \in DOMAIN p \ {"ro", "al"} |-> p[k]] = [k \in DOMAIN q \ {"ro", "al"} |-> q[k]] /\ (nan \/ NaNFree(p))
EqMap(m, n, nan) == DOMAIN m = DOMAIN n /\ \A k \in DOMAIN m : EqVar(m[k], n[k], nan)
EqCoords(m, n, nan) == EqMap(m, n, nan) /\ \A k \in DOMAIN m : m[k].al = n[k].al
EqArray(a, b, nan) == EqVar(a.data, b.data, nan) /\ EqCoords(a.coords, b.coords, nan) /\ EqMap(a.masks, b.masks, nan)
EqSet(d, e, nan) ==
    /\ EqCoords(d.coords, e.coords, nan) /\ DOMAIN d.items = DOMAIN e.items
    /\ \A n \in DOMAIN d.items : EqVar(d.items[n].data, e.items[n].data, nan) /\ EqMap(d.items[n].masks, e.items[n].masks, nan)
Kind(o) == IF "items" \in DOMAIN o THEN "dataset" ELSE IF "data" \in DOMAIN o THEN "array" ELSE "variable"
Eq(a, b, nan) == Kind(a) = Kind(b) /\ (CASE Kind(a) = "variable" -> EqVar(a, b, nan) [] Kind(a) = "array" -> EqArray(a, b, nan) [] Kind(a) = "dataset" -> EqSet(a, b, nan))

(* ---- copies ---- *)
\* the copy of an object: the same, writable, whatever the source was
Writable(v) == IF "ro" \in DOMAIN v THEN [v EXCEPT !.ro = FALSE] ELSE v
WMap(m) == [k \in DOMAIN m |-> Writable(m[k])]
DeepCopy(o) ==
    CASE Kind(o) = "variable" -> Writable(o)
      [] Kind(o) = "array" -> [o EXCEPT !.data = Writable(o.data), !.coords = WMap(o.coords), !.masks = WMap(o.masks)]
      [] Kind(o) = "dataset" -> [o EXCEPT !.coords = WMap(o.coords), !.items = [n \in DOMAIN o.items |-> [data |-> Writable(o.items[n].data), masks |-> WMap(o.items[n].masks)]]]
\* coords that are part of a dataset stay as protected in copies as the copy needs: those are not compared here
Loosely(o) ==
    CASE Kind(o) = "variable" -> Facts(o)
      [] Kind(o) = "array" -> [o EXCEPT !.data = Facts(o.data), !.coords = [n \in DOMAIN o.coords |-> Facts(o.coords[n])], !.masks = [n \in DOMAIN o.masks |-> Facts(o.masks[n])]]
      [] Kind(o) = "dataset" -> [o EXCEPT !.coords = [n \in DOMAIN o.coords |-> Facts(o.coords[n])],
                                          !.items = [n \in DOMAIN o.items |-> [data |-> Facts(o.items[n].data), masks |-> [m \in DOMAIN o.items[n].masks |-> Facts(o.items[n].masks[m])]]]]
=============================================================================
