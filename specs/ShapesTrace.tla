---------------------------- MODULE ShapesTrace -----------------------------
EXTENDS Shapes
VARIABLES l, s
E == Trace[l]
\* complete observable content of the Dimensions object
ObsOk(q, o) ==
  /\ o.labels = Labels(q) /\ o.shape = Shape(q) /\ o.volume = Volume(q)
  /\ o.ndim = Len(q) /\ o.empty = (q = <<>>)
  /\ o.inner = (IF q = <<>> THEN Invalid ELSE q[Len(q)][1])
  /\ o.offsets = RowMajor(q) /\ o.strides = RowMajor(q)
  /\ \A i \in DOMAIN o.lookup : LET u == o.lookup[i] IN
        IF HasDim(q, u.x) THEN u.has /\ u.at = Ext(q, u.x) /\ u.index = PosOf(q, u.x) - 1
        ELSE ~u.has /\ u.at = -1 /\ u.index = -1
Mut == CASE E.op = "add" -> AddOuter(s, E.x, E.n)
         [] E.op = "addInner" -> AddInner(s, E.x, E.n)
         [] E.op = "resize" -> Resize(s, E.x, E.n)
         [] E.op = "set" -> SetSize(s, E.x, E.n)
         [] E.op = "erase" -> Erase(s, E.x)
         [] E.op = "replace" -> ReplaceKey(s, E.x, E.y)
         [] E.op \in {"clear", "reset"} -> Ok(<<>>)
MutOps == {"add", "addInner", "resize", "set", "erase", "replace", "clear", "reset"}
TMut == /\ E.op \in MutOps
        /\ LET r == Mut IN /\ E.ok = r.ok
                           /\ s' = IF r.ok THEN r.v ELSE s
        /\ (Has(E, "obs") => ObsOk(s', E.obs))
Same(r, w) == r.ok = w.ok /\ (r.ok => r.v = w.v)
\* stateless calls: E.r is the recorded result
Fun == CASE E.op = "merge" -> IsMerge(E.a, E.b, E.r)
         [] E.op = "intersection" -> IF Mergeable(E.a, E.b) /\ ~SameOrder(E.a, E.b)
                                     THEN E.r.ok /\ Labels(E.r.v) = Labels(Intersection(E.a, E.b).v) /\ Includes(E.a, E.r.v)
                                     ELSE Same(E.r, Intersection(E.a, E.b))
         [] E.op = "transpose" -> /\ Same(E.r, Transpose(E.a, E.labs))
                                  \* strides permute like labels
                                  /\ (E.r.ok => E.str = [i \in DOMAIN E.r.v |-> RowMajor(E.a)[PosOf(E.a, E.r.v[i][1])]])
         [] E.op = "fold" -> Same(E.r, Fold(E.a, E.x, E.b))
         [] E.op = "slice" -> IF ~SliceOk(E.sb, E.se, E.st) THEN ~E.ctor
                              ELSE E.ctor /\ Same(E.r, SliceShape(E.a, E.x, E.sb, E.se, E.st))
         [] E.op = "noslice" -> Same(E.r, Ok(E.a))
         [] E.op = "rename" -> IF Chained(E.p) THEN (E.r.ok => NoDup(Labels(E.r.v)) /\ Shape(E.r.v) = Shape(E.a))
                               ELSE Same(E.r, Rename(E.a, E.p, E.strict))
         [] E.op = "cmp" -> /\ E.includes = Includes(E.a, E.b)
                            /\ E.seq = SameUnordered(E.a, E.b) /\ E.sne = ~E.seq
                            /\ E.deq = (E.a = E.b) /\ E.dne = ~E.deq
         [] E.op = "mergeSizes" -> IF ~Mergeable(E.a, E.b) THEN ~E.r.ok
                                   ELSE E.r.ok /\ E.r.v = E.a \o SelectSeq(E.b, LAMBDA e : ~HasDim(E.a, e[1]))
         [] E.op = "concat" -> Same(E.r, Ok(ConcatShape(E.a, E.b, E.x)))
         [] E.op = "edges" -> E.val = IsEdges(E.a, E.b, E.x)
         [] E.op = "ctor" -> Same(E.r, IF Valid(E.a) THEN Ok(E.a) ELSE Refused)
         [] E.op = "flat" -> E.val = Dot(E.str, E.idx)
         [] E.op = "extract" -> IF E.shape = <<>> THEN E.idx = <<E.i>>
                                ELSE E.idx = Extract(E.i, E.shape)
         [] E.op = "bounds" -> \A m \in Reachable(E.shape, E.str) : E.lo <= m /\ m < E.hi
         [] OTHER -> FALSE
TFun == E.op \notin MutOps /\ UNCHANGED s /\ Judge(Fun, l, "see event")
TInit == s = <<>> /\ l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (TMut \/ TFun)
TSpec == TInit /\ [][TNext]_<<l, s>>
AlwaysValid == Valid(s)
=============================================================================
