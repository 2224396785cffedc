---------------------------- MODULE OrderedDict ----------------------------
(* P04. The insertion-ordered dictionary (coords, masks, dataset items).
   State: the entries in insertion order and one set of iterators (one per
   iterator kind) created together.  An iterator remembers the size of the
   dictionary at its creation; `dirty` records whether any structural change
   happened since.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
CONSTANTS Keys, Vals, Kinds

VARIABLES d, it
NoIter == [on |-> FALSE, size |-> 0, dirty |-> FALSE, pos |-> [kd \in Kinds |-> 1]]

KeysOf(s) == {s[i].k : i \in DOMAIN s}
Pos(s, k) == CHOOSE i \in DOMAIN s : s[i].k = k
Put(s, k, v) == IF k \in KeysOf(s) THEN [s EXCEPT ![Pos(s, k)].v = v]
                ELSE Append(s, [k |-> k, v |-> v])
Without(s, k) == SelectSeq(s, LAMBDA e : e.k # k)
Touch(i) == [i EXCEPT !.dirty = TRUE]

Init == d = <<>> /\ it = NoIter
\* replacing a value is no structural change
Insert(k, v) == /\ d' = Put(d, k, v)
                /\ it' = IF k \in KeysOf(d) THEN it ELSE Touch(it)
EraseOk(k) == k \in KeysOf(d) /\ d' = Without(d, k) /\ it' = Touch(it)
EraseMissing(k) == k \notin KeysOf(d) /\ UNCHANGED <<d, it>>
Clear == d' = <<>> /\ it' = Touch(it)
Reserve == UNCHANGED d /\ it' = Touch(it)
NewIter(p) == /\ UNCHANGED d
              /\ it' = [on |-> TRUE, size |-> Len(d), dirty |-> FALSE, pos |-> [kd \in Kinds |-> p]]
Begin == NewIter(1)
Find(k) == NewIter(IF k \in KeysOf(d) THEN Pos(d, k) ELSE Len(d) + 1)

\* what using an iterator may do
Stale == it.size # Len(d)            \* must be refused
MayRefuse == it.dirty
MustWork == ~it.dirty
Advance(S) == /\ UNCHANGED d       \* the kinds in S advance
              /\ it' = [it EXCEPT !.pos = [kd \in Kinds |-> IF kd \in S THEN @[kd] + 1 ELSE @[kd]]]

Next == \/ \E k \in Keys, v \in Vals : Insert(k, v)
        \/ \E k \in Keys : EraseOk(k) \/ EraseMissing(k) \/ Find(k)
        \/ Clear \/ Begin
        \/ it.on /\ ~Stale /\ (\A kd \in Kinds : it.pos[kd] <= Len(d)) /\ Advance(Kinds)
Spec == Init /\ [][Next]_<<d, it>>

(* ---- the property ---- *)
TypeOK == \A i \in DOMAIN d : d[i].k \in Keys /\ d[i].v \in Vals
EachKeyOnce == \A i, j \in DOMAIN d : d[i].k = d[j].k => i = j
Before(s, a, b) == a \in KeysOf(s) /\ b \in KeysOf(s) /\ Pos(s, a) < Pos(s, b)
OrderKept == [][\A a, b \in Keys : {a, b} \subseteq KeysOf(d) /\ {a, b} \subseteq KeysOf(d')
                     => (Before(d, a, b) <=> Before(d', a, b))]_d
NewAtEnd == [][\A k \in KeysOf(d') \ KeysOf(d) : Pos(d', k) = Len(d')]_d
\* a clean iterator always points into the dictionary it was created from
CleanIsValid == it.on /\ ~it.dirty => it.size = Len(d)
=============================================================================
