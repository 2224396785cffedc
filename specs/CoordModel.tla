----------------------------- MODULE CoordModel -----------------------------
(* Evaluation of coordinate graphs as a state machine over every small
   program: rules run in any order their inputs allow, and a table of usage
   counters decides when a value is dropped.  Shows that the machine agrees
   with the declarative meaning in Coords and that the meaning is well
   defined.                                                                  *)
EXTENDS Coords
CONSTANTS Names, Forms, Opts, MaxArgs, Big
VARIABLES P, A, left, done, lost
vars == <<P, A, left, done, lost>>

NameSeq == IF Big THEN <<"a", "b", "c", "d">> ELSE <<"a", "b", "c">>
SeqOf(S) == SelectSeq(NameSeq, LAMBDA x : x \in S)
Kinds(x) ==
    {[k |-> "none", s |-> {}, f |-> "d"]}
    \cup {[k |-> "in", s |-> {}, f |-> f] : f \in Forms}
    \cup {[k |-> "rename", s |-> {y}, f |-> "d"] : y \in Names \ {x}}
    \cup {[k |-> "fn", s |-> s, f |-> "d"] : s \in {t \in SUBSET (Names \ {x}) : Cardinality(t) \in 1 .. MaxArgs}}
\* two names made by one rule (the second takes over the inputs of the first)
Rule(x, outs, c) == [id |-> "r" \o x, kind |-> c.k, outs |-> outs, ins |-> SeqOf(c.s), omit |-> <<>>, dict |-> FALSE]
RECURSIVE RulesOf(_, _, _)
RulesOf(ch, two, i) ==
    IF i > Len(NameSeq) THEN <<>>
    ELSE LET x == NameSeq[i]
             c == ch[x]
             rest == RulesOf(ch, two, i + 1)
         IN IF c.k \notin {"rename", "fn"} \/ (two # {} /\ x = SeqOf(two)[2]) THEN rest
            ELSE <<Rule(x, IF x \in two THEN SeqOf(two) ELSE <<x>>, c)>> \o rest
CoordsOf(ch, dims) ==
    LET ins == SelectSeq(NameSeq, LAMBDA x : ch[x].k = "in") IN
    [i \in DOMAIN ins |-> LET x == ins[i] IN
        [n |-> x, dense |-> ch[x].f # "e", event |-> ch[x].f # "d", al |-> TRUE,
         dd |-> IF ch[x].f = "e" THEN <<>> ELSE IF x \in Range(dims) THEN <<x>> ELSE <<dims[1]>>]]
Choices == {ch \in [Names -> UNION {Kinds(x) : x \in Names}] :
              /\ \A x \in Names : ch[x] \in Kinds(x)
              /\ \E x \in Names : ch[x].k = "in"}
DimSeqs == {<<"a">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "c">>}
\* nothing, or two names that share one rule
Twos(ch) == {{}} \cup {t \in SUBSET Names : Cardinality(t) = 2 /\ LET s == SeqOf(t) IN
                         ch[s[1]] = ch[s[2]] /\ ch[s[1]].k \in {"rename", "fn"}}
AllOpts == [rd : {TRUE}, ka : BOOLEAN, ki : BOOLEAN, kin : BOOLEAN]
OneOpt == {[rd |-> TRUE, ka |-> FALSE, ki |-> FALSE, kin |-> FALSE]}
GoodTargets == IF Big THEN {{"d"}, {"c", "d"}, {"a", "d"}} ELSE (SUBSET Names) \ {{}}
InitP == \E ch \in Choices : \E ds \in DimSeqs : \E t \in GoodTargets : \E o \in Opts : \E two \in Twos(ch) :
           P = [binned |-> \E x \in Names : ch[x].f # "d", sliced |-> FALSE, dims |-> ds, coords |-> CoordsOf(ch, ds),
                rules |-> RulesOf(ch, two, 1), targets |-> SeqOf(t), opt |-> o]
Runnable == ~Ambiguous(P) /\ Missing(P) = {} /\ ~Cyclic(A.par)

(* the counters of the implementation: -1 is "keep forever" *)
Uses(n) == Cardinality({i \in A.used : n \in Range(P.rules[i].ins)})
Start(n) == IF Kept(P, A, n) THEN -1 ELSE Uses(n)
Init == /\ InitP
        /\ A = (IF Ambiguous(P) THEN [none |-> TRUE] ELSE Analyse(P))
        /\ done = {} /\ lost = {}
        /\ left = IF Runnable THEN [n \in A.nodes |-> Start(n)] ELSE [n \in {} |-> 0]
Have == (A.nodes \ A.prod) \cup UNION {Range(P.rules[i].outs) : i \in done}
Run(i) == LET ins == Range(P.rules[i].ins) IN
    /\ i \notin done /\ ins \subseteq Have
    /\ done' = done \cup {i}
    /\ left' = [n \in DOMAIN left |-> IF n \in ins /\ left[n] > 0 THEN left[n] - 1 ELSE left[n]]
    /\ lost' = {n \in DOMAIN left' : left'[n] = 0}
    /\ UNCHANGED <<P, A>>
Next == Runnable /\ \E i \in A.used : Run(i)
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][FALSE]_vars
-----------------------------------------------------------------------------
Finished == done = A.used
Progress == Runnable /\ ~Finished => \E i \in A.used \ done : Range(P.rules[i].ins) \subseteq Have
\* no function ever needs a value which has been dropped
NotStarved == Runnable => \A i \in A.used \ done : Range(P.rules[i].ins) \cap lost = {}
\* exactly the coords which the options do not keep are gone
DropsAgree == Runnable /\ Finished => lost = {n \in A.nodes : ~Kept(P, A, n)}
\* every target is there, nothing needless is computed
TargetsKept == Runnable => \A t \in Range(P.targets) : t \in A.nodes /\ Kept(P, A, t) /\ Aligned(P, A, t)
OnlyNeeded == Runnable => \A i \in A.used : \E o \in Range(P.rules[i].outs) :
                 o \in Needed(P) /\ ~InCoords(P, o)
ExistingWin == Runnable /\ (\A t \in Range(P.targets) : InCoords(P, t)) => A.used = {}
HasValue == Runnable => \A n \in A.nodes : Dense(P, A, n) # "" \/ Event(P, A, n) # ""
\* colouring: never more than the full amount, candidates form a chain, so the
\* farthest one is unique, and no two dimensions get the same name
Colours == Runnable /\ done = {} =>
    LET DC == DimCoords(P, A)
        full == Full(A)
    IN \A d \in DC :
         /\ \A n \in A.nodes : Colour(A, DC, full, d, n) \in 0 .. full
         /\ d \in Candidates(A, DC, full, d)
         /\ Cardinality(Farthest(A, Candidates(A, DC, full, d))) = 1
         /\ \A e \in DC : e # d => NewName(A, DC, full, d) # NewName(A, DC, full, e)
         /\ \A n \in A.nodes \ {d} : Colour(A, DC, full, d, n) > 0 => d \in A.anc[n]
\* whatever is renamed to dominates: without it nothing else carries the colour on
Dominates == Runnable /\ done = {} =>
    LET DC == DimCoords(P, A)
        full == Full(A)
    IN \A d \in DC : LET n == NewName(A, DC, full, d) IN
         n # d => \A m \in A.nodes \ (DC \cup {n}) :
            (Colour(A, DC, full, d, m) > 0 /\ m \notin A.anc[n]) => n \in A.anc[m]
\* asking again for what has been computed is the identity
Idempotent == Runnable /\ Finished /\ ~Clash(NewDims(P, Renames(P, A))) =>
    LET m == Renames(P, A)
        ns == SeqOf(OutNames(P, A))
        Q == [P EXCEPT !.coords = [i \in DOMAIN ns |-> LET c == OutCoord(P, A, m, ns[i]) IN
                  [n |-> ns[i], dense |-> c.d # "", event |-> c.e # "", dd |-> SeqOf(c.dd), al |-> c.al]]]
    IN Missing(Q) = {} /\ Analyse(Q).used = {}
\* the options only ever add coords
Monotone == Runnable /\ done = {} =>
    LET Q == [P EXCEPT !.opt = [rd |-> TRUE, ka |-> TRUE, ki |-> TRUE, kin |-> TRUE]] IN
    OutNames(P, A) \subseteq OutNames(Q, A)
=============================================================================
