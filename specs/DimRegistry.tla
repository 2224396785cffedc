---------------------------- MODULE DimRegistry ----------------------------
(* P01. Abstract specification of the dimension-label registry: labels are
   interned atomically; a label keeps its id for ever; ids are unique.      *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Labels, Ids
VARIABLES ids      \* partial function: label -> id

None == CHOOSE x : x \notin Ids
Init == ids = <<>>          \* empty function
Range(f) == {f[x] : x \in DOMAIN f}

(* Creating label `lab`, which yields `i` *)
Intern(lab, i) ==
    \/ /\ lab \in DOMAIN ids /\ ids[lab] = i /\ UNCHANGED ids
    \/ /\ lab \notin DOMAIN ids /\ i \notin Range(ids)
       /\ ids' = [x \in DOMAIN ids \cup {lab} |-> IF x = lab THEN i ELSE ids[x]]

Next == \E lab \in Labels, i \in Ids : Intern(lab, i)
Spec == Init /\ [][Next]_ids

Injective == \A a, b \in DOMAIN ids : ids[a] = ids[b] => a = b
Stable == [][\A a \in DOMAIN ids : a \in DOMAIN ids' /\ ids'[a] = ids[a]]_ids
=============================================================================
