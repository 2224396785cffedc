----------------------------- MODULE RecordsModel -----------------------------
(* Laws of sorting and filtering (P20), for all keys and conditions over N
   records of an array with a coord per record, a two-dimensional one, one that
   does not depend on x, bin edges, and a mask.                              *)
EXTENDS Records
CONSTANTS N, Keys
VARIABLES q, desc, idx
vars == <<q, desc, idx>>
Var(d, t, v) == [d |-> d, v |-> v, w |-> <<>>, hv |-> FALSE, u |-> NoUnit, t |-> t]
Coord(d, t, v) == [d |-> d, v |-> v, w |-> <<>>, hv |-> FALSE, u |-> NoUnit, t |-> t, al |-> TRUE]
D1 == << <<"x", N>> >>
D2 == << <<"y", 2>>, <<"x", N>> >>
\* data does not tell the records apart: the mask does
Obj == [data |-> Var(D2, "i8", [i \in 1..(2 * N) |-> i \div 2]),
        coords |-> [k |-> Coord(D1, "f8", q), p |-> Coord(<<D2[2], D2[1]>>, "i8", [i \in 1..(2 * N) |-> 7 + (i % 3)]),
                    e |-> Coord(<< <<"x", N + 1>> >>, "i8", [i \in 1..(N + 1) |-> i]), c |-> Coord(<<>>, "i8", <<5>>)],
        masks |-> [m |-> Var(D1, "bool", [i \in 1..N |-> i % 2])]]
Ids == [i \in 1..N |-> i]
Key1 == Coord(D1, "f8", q)
Result(ix) == Select(Obj, "x", ix)
Init == q \in [1..N -> Keys] /\ desc \in BOOLEAN /\ idx = Ids
Next == idx = Ids /\ idx' \in [1..N -> 1..N] /\ UNCHANGED <<q, desc>>
Spec == Init /\ [][Next]_vars
Perm == ToSetQ(idx) = 1..N
Ranked(s) == \A j \in 1..(Len(s) - 1) : IF desc THEN ~KeyLess(s[j], s[j + 1]) ELSE ~KeyLess(s[j + 1], s[j])
Recs(o, n) == [i \in 1..n |-> Record(o, "x", i)]
Times(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})
\* what is accepted is exactly: the same records, the keys in order
Judged == SortOk(Obj, Key1, desc, TRUE, Result(idx))
          <=> /\ Ranked([i \in 1..N |-> q[idx[i]]])
              /\ \A e \in ToSetQ(Recs(Obj, N)) : Times(Recs(Obj, N), e) = Times(Recs(Result(idx), N), e)
StableIsSorted == SortOk(Obj, Key1, desc, TRUE, Result(Order(q, desc)))
Idempotent == LET s == [i \in 1..N |-> q[Order(q, desc)[i]]] IN Order(s, desc) = Ids
\* the coord of the result is sorted, as the test sees it
Sortedness == (\A i \in 1..N : ~IsNaN(q[i])) => IsSorted(Result(Order(q, desc)).coords["k"], "x", desc) = <<1>>
\* a condition and its opposite divide the records, in order; selecting composes
Cond(neg) == Var(D1, "bool", [i \in 1..N |-> IF neg THEN 1 - (idx[i] % 2) ELSE idx[i] % 2])
Divided == LET a == Chosen(Cond(FALSE))  b == Chosen(Cond(TRUE)) IN
           /\ ToSetQ(a) \cap ToSetQ(b) = {} /\ ToSetQ(a) \cup ToSetQ(b) = 1..N
           /\ Order(a, FALSE) = [i \in DOMAIN a |-> i]
           /\ ExtractOk(Obj, Cond(FALSE), TRUE, Result(a))
           /\ (a # Ids => ~ExtractOk(Obj, Cond(FALSE), TRUE, [Obj EXCEPT !.coords = PickMap(D2, Obj.coords, "x", Ids)]))
Composed == SameObject(Select(Result(idx), "x", Order(q, desc)), Result([i \in 1..N |-> idx[Order(q, desc)[i]]]))
NoEdges == "e" \notin DOMAIN Result(idx).coords /\ Result(idx).coords["c"] = Obj.coords["c"]
=============================================================================
