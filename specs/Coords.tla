------------------------------- MODULE Coords -------------------------------
(* What transform_coords(x, targets, graph, options) means.

   A program P is a record
     dims     sequence of dimension labels of the data
     coords   sequence of [n, dense, dd, event, al]: existing coords, their
              dimensions, whether there is a dense and an event form, alignment
     rules    sequence of [id, kind, outs, ins, omit]: kind "rename" or "fn"
     targets  sequence of names
     opt      [rd, ka, ki, kin]: rename_dims, keep_aliases, keep_intermediate,
              keep_inputs
   Values are symbolic: the term of a result says exactly which function was
   applied to which inputs.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}

InCoords(P, n) == \E i \in DOMAIN P.coords : P.coords[i].n = n
CoordOf(P, n) == P.coords[CHOOSE i \in DOMAIN P.coords : P.coords[i].n = n]
RulesFor(P, n) == {i \in DOMAIN P.rules : n \in Range(P.rules[i].outs)}
RuleOf(P, n) == CHOOSE i \in RulesFor(P, n) : TRUE
\* the same name is the output of two rules: not a graph
Ambiguous(P) == \E i, j \in DOMAIN P.rules : i # j /\ Range(P.rules[i].outs) \cap Range(P.rules[j].outs) # {}

(* -- which names and rules are needed ------------------------------------ *)
Needs(P, n) == IF InCoords(P, n) \/ RulesFor(P, n) = {} THEN {} ELSE Range(P.rules[RuleOf(P, n)].ins)
RECURSIVE Closure(_, _)
Closure(P, S) == LET T == S \cup UNION {Needs(P, n) : n \in S} IN IF T = S THEN S ELSE Closure(P, T)
Needed(P) == Closure(P, Range(P.targets))
Missing(P) == {n \in Needed(P) : ~InCoords(P, n) /\ RulesFor(P, n) = {}}
Used(P) == {RuleOf(P, n) : n \in {m \in Needed(P) : ~InCoords(P, m) /\ RulesFor(P, m) # {}}}

(* -- analysis of a graph without missing names ---------------------------- *)
Produced(P, U) == UNION {Range(P.rules[i].outs) : i \in U}
ParentsOf(P, U, n) == IF n \in Produced(P, U) THEN Range(P.rules[RuleOf(P, n)].ins) ELSE {}
RECURSIVE Up(_, _)
Up(par, S) == LET T == S \cup UNION {par[n] : n \in S} IN IF T = S THEN S ELSE Up(par, T)
Cyclic(par) == \E n \in DOMAIN par : n \in Up(par, par[n])

Analyse(P) ==
    LET U == Used(P)
        prod == Produced(P, U)
        nodes == (Needed(P) \ Missing(P)) \cup prod
        par == [n \in nodes |-> ParentsOf(P, U, n) \cap nodes]
    IN [used |-> U, prod |-> prod, nodes |-> nodes, par |-> par,
        anc |-> [n \in nodes |-> Up(par, par[n])],
        kids |-> [n \in nodes |-> {m \in nodes : n \in par[m]}],
        renamed |-> UNION {Range(P.rules[i].outs) : i \in {j \in U : P.rules[j].kind = "rename"}},
        consumed |-> UNION {Range(P.rules[i].ins) : i \in U}]

(* -- values ---------------------------------------------------------------- *)
Join(s) == LET RECURSIVE J(_)
               J(i) == IF i > Len(s) THEN "" ELSE s[i] \o (IF i < Len(s) THEN "," ELSE "") \o J(i + 1)
           IN J(1)
Applied(r, args, n) == r.id \o "(" \o Join(args) \o ")" \o (IF Len(r.outs) > 1 \/ r.dict THEN "#" \o n ELSE "")
RECURSIVE Dense(_, _, _), Event(_, _, _), DDims(_, _, _)
DenseArgs(P, A, r) == [i \in DOMAIN r.ins |-> Dense(P, A, r.ins[i])]
EventArgs(P, A, r) == [i \in DOMAIN r.ins |-> LET e == Event(P, A, r.ins[i]) IN IF e # "" THEN e ELSE Dense(P, A, r.ins[i])]
RunsDense(P, A, r) == \A i \in DOMAIN r.ins : Dense(P, A, r.ins[i]) # ""
RunsEvent(P, A, r) == \E i \in DOMAIN r.ins : Event(P, A, r.ins[i]) # ""
\* "": there is no such form
Dense(P, A, n) ==
    IF n \notin A.prod THEN (IF CoordOf(P, n).dense THEN n \o ".d" ELSE "")
    ELSE LET r == P.rules[RuleOf(P, n)] IN
         IF r.kind = "rename" THEN Dense(P, A, r.ins[1])
         ELSE IF RunsDense(P, A, r) THEN Applied(r, DenseArgs(P, A, r), n) ELSE ""
Event(P, A, n) ==
    IF n \notin A.prod THEN (IF CoordOf(P, n).event THEN n \o ".e" ELSE "")
    ELSE LET r == P.rules[RuleOf(P, n)] IN
         IF r.kind = "rename" THEN Event(P, A, r.ins[1])
         ELSE IF RunsEvent(P, A, r) THEN Applied(r, EventArgs(P, A, r), n) ELSE ""
\* dimensions of the dense form
DDims(P, A, n) ==
    IF n \notin A.prod THEN Range(CoordOf(P, n).dd)
    ELSE LET r == P.rules[RuleOf(P, n)] IN UNION {DDims(P, A, r.ins[i]) : i \in DOMAIN r.ins}

(* -- what stays ------------------------------------------------------------ *)
Kept(P, A, n) ==
    \/ n \in Range(P.targets)
    \/ n \notin A.consumed
    \/ IF n \notin A.prod THEN P.opt.kin ELSE IF n \in A.renamed THEN P.opt.ka ELSE P.opt.ki
Aligned(P, A, n) ==
    \/ n \in Range(P.targets)
    \/ n \notin A.consumed /\ n \notin A.renamed

(* -- dimension renaming (ADR 0011) ------------------------------------------ *)
DimCoords(P, A) == {n \in A.nodes \cap Range(P.dims) :
                      n \in (IF Dense(P, A, n) # "" THEN DDims(P, A, n) ELSE Range(P.dims))}
RECURSIVE Prod(_, _)
Prod(f, S) == IF S = {} THEN 1
              ELSE LET x == CHOOSE y \in S : TRUE
                       k == Cardinality(f[x])
                   IN (IF k = 0 THEN 1 ELSE k) * Prod(f, S \ {x})
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* amount of colour d in node n, as a multiple of 1/Full(A)
Full(A) == Prod(A.kids, A.nodes)
RECURSIVE Colour(_, _, _, _, _)
Colour(A, DC, full, d, n) ==
    IF n \in DC THEN (IF n = d THEN full ELSE 0)
    ELSE LET ps == A.par[n] IN
         Sum([p \in ps |-> Colour(A, DC, full, d, p) \div Cardinality(A.kids[p])], ps)
Candidates(A, DC, full, d) ==
    {n \in A.nodes : \A e \in DC : (Colour(A, DC, full, e, n) = full) = (e = d)}
Farthest(A, S) == {n \in S : \A m \in S : m = n \/ m \in A.anc[n]}
NewName(A, DC, full, d) == CHOOSE n \in Farthest(A, Candidates(A, DC, full, d)) : TRUE
Renames(P, A) ==
    IF ~P.opt.rd THEN [d \in {} |-> ""]
    ELSE LET DC == DimCoords(P, A)
             full == Full(A)
         IN [d \in DC |-> NewName(A, DC, full, d)]
Ren(m, d) == IF d \in DOMAIN m THEN m[d] ELSE d
NewDims(P, m) == [i \in DOMAIN P.dims |-> Ren(m, P.dims[i])]
Clash(ds) == \E i, j \in DOMAIN ds : i # j /\ ds[i] = ds[j]

(* -- the result: name -> [d, e, dd, al, eal] -------------------------------- *)
OutNames(P, A) == {n \in {P.coords[i].n : i \in DOMAIN P.coords} : n \notin A.nodes \/ Kept(P, A, n)}
                  \cup {n \in A.nodes : Kept(P, A, n)}
OutCoord(P, A, m, n) ==
    LET d == IF n \in A.nodes THEN Dense(P, A, n) ELSE IF CoordOf(P, n).dense THEN n \o ".d" ELSE ""
        e == IF n \in A.nodes THEN Event(P, A, n) ELSE IF CoordOf(P, n).event THEN n \o ".e" ELSE ""
        al == IF n \in A.nodes THEN Aligned(P, A, n) ELSE CoordOf(P, n).al
    IN [n |-> n, d |-> d, e |-> e,
        dd |-> IF d = "" THEN {} ELSE {Ren(m, x) : x \in IF n \in A.nodes THEN DDims(P, A, n) ELSE Range(CoordOf(P, n).dd)},
        al |-> d # "" /\ al, eal |-> e # "" /\ al]
\* functions whose call raises because an announced output is not returned
Faulty(P, A) == {i \in A.used : P.rules[i].omit # <<>>}
=============================================================================
