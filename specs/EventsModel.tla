----------------------------- MODULE EventsModel -----------------------------
(* The laws that binning has to satisfy (P16), checked on all small tables of
   events and all pairs of keys, with the same operators that judge the real
   code:  every event of the table is put in exactly the bins it belongs to,
   once; binning in two steps is binning in one; binning again with other edges
   depends on the first binning only through the events it dropped; and
   the order of keys only reorders the dimensions.                           *)
EXTENDS Events
CONSTANTS MaxEvents, Coord, MaxEdges
VARIABLES tab, k1, k2, stage
vars == <<tab, k1, k2, stage>>
Events0 == Coord \X Coord
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
EdgeSeqs == {s \in SeqsUpTo(Coord \cup {3}, MaxEdges) : Len(s) >= 2 /\ Rising(s)}
GroupSeqs == {s \in SeqsUpTo(Coord, 2) : Len(s) >= 1 /\ Distinct(s)}
KeysOf(x) == {[g |-> FALSE, x |-> x, v |-> [d |-> <<<<x, Len(s)>>>>, v |-> s, u |-> <<0, 0, 0>>]] : s \in EdgeSeqs}
             \cup {[g |-> TRUE, x |-> x, v |-> [d |-> <<<<x, Len(s)>>>>, v |-> s, u |-> <<0, 0, 0>>]] : s \in GroupSeqs}
\* column 1 is the number of the event
Table == [d |-> <<>>, t |-> "bin", bt |-> "f8", u |-> <<0, 0, 0>>, hv |-> FALSE, bd |-> "row", cn |-> <<"x", "y">>, mn |-> <<>>,
          cu |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, ev |-> << [i \in DOMAIN tab |-> <<i, 0, tab[i][1], tab[i][2]>>] >>]
\* the result of binning that walks through the given cells in order
Binned(b, keys, gone) ==
    LET new == [n \in DOMAIN keys |-> <<keys[n].x, KeyExt(keys[n])>>]
        S == b.d  O == Without(S, gone)  I == With(S, gone)  D == O \o new
        T == Targets(b, S, <<>>, keys)  nn == Volume(new)  rn == RowMajor(new)
        flat == [q \in DOMAIN b.ev |-> [j \in DOMAIN b.ev[q] |->
                   IF \E n \in DOMAIN keys : T[q][j][n] = 0 THEN 0 ELSE 1 + FoldSum([n \in DOMAIN keys |-> rn[n] * (T[q][j][n] - 1)])]]
        pick(q, f) == LET js == SelectSeq([j \in DOMAIN b.ev[q] |-> j], LAMBDA j : flat[q][j] = f) IN [i \in DOMAIN js |-> b.ev[q][js[i]]]
        c == ByLabel(S, O \o I)  n == Volume(I)
    IN [b EXCEPT !.d = D, !.ev = [p \in 1..Volume(D) |->
          LET k == ((p - 1) \div nn) + 1  f == ((p - 1) % nn) + 1 IN Flat([j \in 1..n |-> pick(c[(k - 1) * n + j], f)])]]
Bag(s) == {s[i] : i \in DOMAIN s}        \* the events are numbered: a set is enough
Bags(b) == [p \in DOMAIN b.ev |-> Bag(b.ev[p])]
Hide(q) == FALSE
Holds(k, i) == LET v == IF k.x = "x" THEN tab[i][1] ELSE tab[i][2] IN Place(k, k.v.v, v)
Init == tab = <<>> /\ k1 = <<>> /\ k2 = <<>> /\ stage = 0
Next == \/ stage = 0 /\ \E e \in Events0 : Len(tab) < MaxEvents /\ tab' = Append(tab, e) /\ UNCHANGED <<k1, k2, stage>>
        \/ stage = 0 /\ k1' \in KeysOf("x") /\ stage' = 1 /\ UNCHANGED <<tab, k2>>
        \/ stage = 1 /\ k2' \in KeysOf("y") \cup KeysOf("x") /\ stage' = 2 /\ UNCHANGED <<tab, k1>>
Spec == Init /\ [][Next]_vars
One == Binned(Table, <<k1>>, {"x"})
\* in exactly the right bin, once
InPlace == stage = 1 =>
    LET r == One IN
    /\ \A i \in DOMAIN tab : Cardinality({p \in DOMAIN r.ev : \E j \in DOMAIN r.ev[p] : r.ev[p][j][1] = i}) = (IF Holds(k1, i) = 0 THEN 0 ELSE 1)
    /\ \A i \in DOMAIN tab : Holds(k1, i) # 0 => \E j \in DOMAIN r.ev[Holds(k1, i)] : r.ev[Holds(k1, i)][j] = Table.ev[1][i]
    /\ FoldSum([p \in DOMAIN r.ev |-> Len(r.ev[p])]) = Cardinality({i \in DOMAIN tab : Holds(k1, i) # 0})
\* the operator that judges the real code accepts this result, and none with two events exchanged between bins or one lost
Judged == stage = 1 =>
    LET r == One
        Fine(q) == BinnedOk(Table, <<>>, <<>>, <<k1>>, {"x"}, Hide, {}, q, Hide)
    IN /\ Fine(r)
       /\ \A p \in DOMAIN r.ev : r.ev[p] # <<>> => ~Fine([r EXCEPT !.ev[p] = Tail(@)]) /\ ~Fine([r EXCEPT !.ev[p] = @ \o <<@[1]>>])
       /\ \A p, q \in DOMAIN r.ev : p # q /\ r.ev[p] # r.ev[q] => ~Fine([r EXCEPT !.ev[p] = r.ev[q], !.ev[q] = r.ev[p]])
Kept(i) == Holds(k1, i) # 0 /\ Holds(k2, i) # 0
TwoSteps == stage = 2 /\ k2.x = "y" =>
    LET both == Binned(Table, <<k1, k2>>, {"x", "y"})
        step == Binned(One, <<k2>>, {"y"})
        swap == Binned(Table, <<k2, k1>>, {"x", "y"})
        back == Binned(swap, <<k2>>, {"y"})
    IN /\ step = both
       /\ \A p \in DOMAIN both.ev : both.ev[p] = swap.ev[ByLabel(swap.d, both.d)[p]]
       /\ back.d = both.d /\ Bags(back) = Bags(both)
       /\ UNION {Bag(both.ev[p]) : p \in DOMAIN both.ev} = {Table.ev[1][i] : i \in {i \in DOMAIN tab : Kept(i)}}
\* joining bins again forgets one key (concat along a dimension)
Joined == stage = 2 /\ k2.x = "y" =>
    LET r == Binned(Binned(Table, <<k1, k2>>, {"x", "y"}), <<k1>>, {"x", "y"}) IN
    \A p \in DOMAIN r.ev : Bag(r.ev[p]) = {Table.ev[1][i] : i \in {i \in DOMAIN tab : Kept(i) /\ Holds(k1, i) = p}}
\* other keys for the same coordinate: what the first one dropped is missing, the rest is as if binned once
Rebinned == stage = 2 /\ k2.x = "x" =>
    LET r == Binned(One, <<k2>>, {"x"})  d == Binned(Table, <<k2>>, {"x"}) IN
    /\ \A p \in DOMAIN r.ev : Bag(r.ev[p]) = {Table.ev[1][i] : i \in {i \in DOMAIN tab : Kept(i) /\ Holds(k2, i) = p}}
    /\ (\A i \in DOMAIN tab : Holds(k1, i) # 0) => Bags(r) = Bags(d)
=============================================================================
