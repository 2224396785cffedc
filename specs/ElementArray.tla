---------------------------- MODULE ElementArray ----------------------------
(* P05. element_array as a value type: a store of named arrays, each either
   null or a sequence.  Every operation is a plain assignment of values, so
   aliasing between two arrays is impossible by construction; the observed
   behaviour of the code must agree.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TraceIO
CONSTANTS Names, Vals, MaxLen, Dflt
VARIABLE a           \* [Names -> array]
Null == [set |-> FALSE, e |-> <<>>]
Arr(s) == [set |-> TRUE, e |-> s]
Fill(n, v) == Arr([i \in 1..n |-> v])
Init == a = [x \in Names |-> Null]

Construct(x, s) == a' = [a EXCEPT ![x] = Arr(s)]
Default(x) == a' = [a EXCEPT ![x] = Null]
Copy(x, y) == a' = [a EXCEPT ![x] = a[y]]         \* construction or assignment, x may be y
Move(x, y) == x # y /\ a' = [a EXCEPT ![x] = a[y], ![y] = Null]
Reset(x) == Default(x)
Resize(x, n) == a' = [a EXCEPT ![x] = Fill(n, Dflt)]
Write(x, i, v) == /\ a[x].set /\ i \in DOMAIN a[x].e
                  /\ a' = [a EXCEPT ![x].e[i] = v]

Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Next == \E x, y \in Names :
          \/ \E s \in Seqs : Construct(x, s)
          \/ Default(x) \/ Copy(x, y) \/ Move(x, y)
          \/ \E n \in 0..MaxLen : Resize(x, n)
          \/ \E i \in 1..MaxLen, v \in Vals : Write(x, i, v)
Spec == Init /\ [][Next]_a

NullIsEmpty == \A x \in Names : ~a[x].set => a[x].e = <<>>
\* a step changes at most two arrays, and writing changes exactly one
Local == [][Cardinality({x \in Names : a'[x] # a[x]}) <= 2]_a
=============================================================================
