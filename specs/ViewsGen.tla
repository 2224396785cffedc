------------------------------ MODULE ViewsGen ------------------------------
(* Small machine over Views: a base variable, up to MaxViews chained views, one
   modifying operation.  With Emitting it writes the programs as JSON; without,
   TLC checks the frame conditions on every step.                            *)
EXTENDS Views, TraceIO
CONSTANTS MaxViews, Emitting, MaxOps
VARIABLES heap, H, prog, nv, nm, pre
vars == <<heap, H, prog, nv, nm, pre>>
Num0(n) == [i \in 1..n |-> i]
Bases == {
  [op |-> "new", h |-> "a", s |-> << <<"x", 2>>, <<"y", 3>> >>, t |-> "f8", u |-> <<1, 1, 0>>, hv |-> FALSE, v |-> Num0(6), w |-> <<>>],
  [op |-> "new", h |-> "a", s |-> << <<"x", 4>> >>, t |-> "f8", u |-> <<1, 1, 0>>, hv |-> TRUE, v |-> Num0(4), w |-> <<5, 6, 7, 8>>],
  [op |-> "new", h |-> "a", s |-> << <<"x", 2>>, <<"z", 1>>, <<"y", 2>> >>, t |-> "i8", u |-> <<1, 0, 0>>, hv |-> FALSE, v |-> Num0(4), w |-> <<>>],
  [op |-> "new", h |-> "a", s |-> << <<"y", 2>> >>, t |-> "vec", u |-> <<1, 1, 0>>, hv |-> FALSE, v |-> Num0(6), w |-> <<>>],
  [op |-> "new", h |-> "a", s |-> << <<"x", 2>>, <<"y", 2>> >>, t |-> "f4", u |-> <<1, 0, 0>>, hv |-> TRUE, v |-> Num0(4), w |-> <<1, 2, 3, 4>>],
  [op |-> "new", h |-> "a", s |-> <<>>, t |-> "f8", u |-> <<1, 0, 1>>, hv |-> FALSE, v |-> <<7>>, w |-> <<>>],
  [op |-> "new", h |-> "a", s |-> << <<"x", 0>>, <<"y", 2>> >>, t |-> "f8", u |-> <<1, 1, 0>>, hv |-> FALSE, v |-> <<>>, w |-> <<>>] }
RevSeq(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
\* views of handle g, to be called n
Views1(n, g) ==
  LET s == H[g].s  L == LabelSet(s) IN
  UNION {{[op |-> "slice", h |-> n, g |-> g, x |-> x, b |-> b, e |-> e, st |-> st] :
            <<b, e, st>> \in {<<Ext(s, x) - 1, -1, 1>>, <<1, Ext(s, x), 1>>, <<0, Ext(s, x), 2>>, <<0, Ext(s, x) - 1, 1>>} \cap (Nat \X (Nat \cup {-1}) \X Nat)} : x \in L}
  \cup (IF Len(s) > 1 THEN {[op |-> "transpose", h |-> n, g |-> g, labs |-> RevSeq(Labels(s))],
                            [op |-> "flatten", h |-> n, g |-> g, labs |-> SubSeq(Labels(s), 1, 2), x |-> "w", shared |-> FALSE],
                            [op |-> "rename", h |-> n, g |-> g, p |-> << <<s[1][1], "m">>, <<s[2][1], "n">> >>, strict |-> TRUE]} ELSE {})
  \cup (IF Len(s) > 0 THEN {[op |-> "fold", h |-> n, g |-> g, x |-> s[1][1], to |-> << <<"p", 2>>, <<"q", s[1][2] \div 2>> >>],
                            [op |-> "flatten", h |-> n, g |-> g, labs |-> Labels(s), x |-> "w", shared |-> FALSE],
                            [op |-> "rename", h |-> n, g |-> g, p |-> << <<s[1][1], "w">> >>, strict |-> TRUE]} ELSE {})
  \cup {[op |-> "broadcast", h |-> n, g |-> g, s |-> D] : D \in {d \in {<< <<"b", 2>> >> \o s, s \o << <<"c", 1>> >>} : NoDup(Labels(d))}}
  \cup {[op |-> "const", h |-> n, g |-> g], [op |-> "squeeze", h |-> n, g |-> g, labs |-> <<>>], [op |-> "assign", h |-> n, g |-> g]}
  \cup (IF H[g].t = "vec" THEN {[op |-> "field", h |-> n, g |-> g, k |-> k] : k \in {0, 2}} ELSE {})
\* things to do with the last handle g and the base
Muts(g) ==
  LET s == H[g].s  vol == Volume(s) IN
  {[op |-> "write", g |-> g, i |-> i, v |-> <<50>>, w |-> <<>>] : i \in {0, vol - 1} \cap Nat \cap {k \in {0, vol - 1} : k < vol}}
  \cup {[op |-> "setunit", g |-> g, u |-> <<1, 0, 2>>], [op |-> "setvar", g |-> g, by |-> ""],
        [op |-> "copyto", g |-> g, to |-> "a"], [op |-> "copyto", g |-> "a", to |-> g],
        [op |-> "inplace", f |-> "add", g |-> g, by |-> "a"], [op |-> "inplace", f |-> "add", g |-> "a", by |-> g],
        [op |-> "inplace", f |-> "mul", g |-> g, by |-> "k"], [op |-> "inplace", f |-> "sub", g |-> g, by |-> g],
        [op |-> "inplace", f |-> "mul", g |-> "a", by |-> g],
        [op |-> "bin", h |-> "r", f |-> "mul", g |-> g, by |-> "a", d |-> <<>>],
        [op |-> "concat", h |-> "r", gs |-> <<g, "a">>, x |-> "x"],
        [op |-> "copy", h |-> "r", g |-> g]}
  \cup (IF s # <<>> THEN {[op |-> "setslice", to |-> g, g |-> "k", x |-> s[1][1], b |-> 0, e |-> -1, st |-> 1]} ELSE {})
\* a scalar of the same type and unit
Scalar(a) == [op |-> "new", h |-> "k", s |-> <<>>, t |-> a.t, u |-> a.u, hv |-> FALSE, v |-> IF a.t = "vec" THEN <<2, 3, 4>> ELSE <<3>>, w |-> <<>>]
Run(e) == CASE e.op = "slice" -> OpSlice(heap, H, e.h, H[e.g], e.x, e.b, e.e, e.st)
    [] e.op = "transpose" -> OpTranspose(heap, H, e.h, H[e.g], e.labs)
    [] e.op = "fold" -> OpFold(heap, H, e.h, H[e.g], e.x, e.to)
    [] e.op = "flatten" -> OpFlatten(heap, H, e.h, H[e.g], e.labs, e.x, TRUE)
    [] e.op = "rename" -> OpRename(heap, H, e.h, H[e.g], e.p, e.strict)
    [] e.op = "broadcast" -> OpBroadcast(heap, H, e.h, H[e.g], e.s)
    [] e.op = "squeeze" -> OpSqueeze(heap, H, e.h, H[e.g], e.labs)
    [] e.op = "const" -> OpConst(heap, H, e.h, H[e.g])
    [] e.op = "assign" -> OpAssign(heap, H, e.h, H[e.g])
    [] e.op = "field" -> OpField(heap, H, e.h, H[e.g], e.k)
    [] e.op = "write" -> OpWrite(heap, H, H[e.g], e.i, IF H[e.g].t = "vec" THEN <<50, 51, 52>> ELSE <<50>>, IF heap[H[e.g].b].hv THEN <<51>> ELSE <<>>)
    [] e.op = "setunit" -> OpSetUnit(heap, H, H[e.g], e.u)
    [] e.op = "setvar" -> OpSetVar(heap, H, H[e.g], FALSE, H[e.g])
    [] e.op = "copyto" -> OpCopyTo(heap, H, H[e.g], H[e.to])
    [] e.op = "setslice" -> OpSetSlice(heap, H, H[e.to], e.x, e.b, e.e, e.st, H[e.g])
    [] e.op = "bin" -> OpBin(heap, H, e.h, e.f, H[e.g], H[e.by], LET a == H[e.g].s b == H[e.by].s IN IF Mergeable(a, b) THEN MergeOrdered(a, b) ELSE <<>>)
    [] e.op = "inplace" -> OpInPlace(heap, H, e.f, H[e.g], H[e.by])
    [] e.op = "concat" -> OpConcat(heap, H, e.h, [i \in DOMAIN e.gs |-> H[e.gs[i]]], e.x)
    [] e.op = "copy" -> CopyOf(heap, H, e.h, H[e.g])
Last == IF nv = 0 THEN "a" ELSE IF nv = 1 THEN "d" ELSE IF nv = 2 THEN "e" ELSE "f"
NextName == IF nv = 0 THEN "d" ELSE IF nv = 1 THEN "e" ELSE "f"
Base(a) == [b |-> 1, s |-> a.s, ro |-> FALSE, bc |-> FALSE, t |-> a.t, c |-> IF a.t = "vec" THEN [i \in 1..Volume(a.s) |-> 3 * i - 2] ELSE Identity(Volume(a.s))]
Init == \E a \in Bases :
          /\ heap = << [v |-> a.v, w |-> a.w, hv |-> a.hv, u |-> a.u, t |-> a.t],
                       [v |-> Scalar(a).v, w |-> <<>>, hv |-> FALSE, u |-> a.u, t |-> a.t] >>
          /\ H = [n \in {"a", "k"} |-> IF n = "a" THEN Base(a) ELSE [b |-> 2, s |-> <<>>, ro |-> FALSE, bc |-> FALSE, t |-> a.t, c |-> <<1>>]]
          /\ prog = <<a, Scalar(a)>> /\ nv = 0 /\ nm = 0 /\ pre = <<>>
Take(e) == \E r \in Run(e) : heap' = r.heap /\ H' = r.H /\ prog' = Append(prog, e)
                             /\ pre' = IF Emitting THEN <<>> ELSE <<e, heap, H, r.ok>>
View == /\ nv < MaxViews /\ nm = 0 /\ \E e \in Views1(NextName, Last) : Take(e)
        /\ NextName \in DOMAIN H' /\ nv' = nv + 1 /\ nm' = 0
Mut == nm < MaxOps /\ nv > 0 /\ Last \in DOMAIN H /\ \E e \in Muts(Last) : Take(e) /\ nm' = nm + 1 /\ nv' = nv
Next == View \/ Mut
Spec == Init /\ [][Next]_vars
\* every transition ending in an operation is one program
Out == IF Emitting /\ nm' = MaxOps THEN Emit(prog') ELSE TRUE
GenView == <<prog>>

(* ---- properties of the specification itself ---- *)
Writing == {"write", "setunit", "setvar", "copyto", "setslice", "inplace"}
HeapInv == HeapOk(heap, H)
Target(e) == IF e.op \in {"copyto", "setslice"} THEN e.to ELSE e.g
\* a refused operation changes nothing; a view or copy changes no existing handle
\* other than the one it defines; a write changes only what overlaps its target
Frame == pre # <<>> =>
   LET e == pre[1]  h0 == pre[2]  H0 == pre[3]  ok == pre[4]  D == IF "h" \in DOMAIN e THEN {e.h} ELSE {} IN
   /\ (~ok => heap = h0 /\ H = H0)
   /\ (e.op \notin Writing => \A n \in DOMAIN H0 \ D : Obs(heap, H[n]) = Obs(h0, H0[n]))
   /\ (e.op \in Writing => /\ H = H0
         /\ \A n \in DOMAIN H0 : LET g == H0[n]  t == H0[Target(e)] IN
              /\ (g.b # t.b => Obs(heap, g) = Obs(h0, g))
              /\ (e.op # "setvar" /\ Touched(g) \cap Touched(t) = {} => Vals(heap, g) = Vals(h0, g)))
   /\ (e.op = "copy" /\ ok => /\ Obs(heap, H[e.h]) = [Obs(h0, H0[e.g]) EXCEPT !.ro = FALSE]
                              /\ \A n \in DOMAIN H0 \ {e.h} : H[n].b # H[e.h].b)
   /\ (ok /\ e.op \in Writing => ~H0[Target(e)].ro)
=============================================================================
