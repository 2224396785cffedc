------------------------------ MODULE GroupModel ------------------------------
(* The laws of groupby (P19), checked for all short keys and edges, with the
   operators that judge the real code: every slice with a value in range belongs
   to exactly one group, groups are in order, nothing is lost, grouping by fine
   bins and adding up is grouping by coarse ones, and right results are accepted
   while wrong ones are not.                                                  *)
EXTENDS Groups
CONSTANTS MaxLen, Values, MaxEdges
VARIABLES key, val, edges, stage
vars == <<key, val, edges, stage>>
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
EdgeSeqs == {s \in SeqsUpTo(Values, MaxEdges) : Len(s) >= 2 /\ Rising(s)}
Keys == Values \cup {NaNTok}
Dimless == <<0, 0, 0>>
Vec(x, t, s) == [d |-> <<<<x, Len(s)>>>>, t |-> t, u |-> Dimless, hv |-> FALSE, v |-> s, w |-> <<>>, al |-> TRUE]
NoMap == [n \in {} |-> 0]
Arr == [data |-> Vec("row", "i8", val), coords |-> [n \in {"k"} |-> Vec("row", "f8", key)], masks |-> NoMap, name |-> ""]
Init == key = <<>> /\ val = <<>> /\ edges = <<>> /\ stage = 0
Next == \/ stage = 0 /\ Len(key) < MaxLen /\ \E x \in Keys, v \in {1, 2} : key' = Append(key, x) /\ val' = Append(val, v) /\ UNCHANGED <<edges, stage>>
        \/ stage = 0 /\ edges' \in EdgeSeqs /\ stage' = 1 /\ UNCHANGED <<key, val>>
Spec == Init /\ [][Next]_vars
SumOf(M) == [i \in DOMAIN M |-> FoldSum([j \in DOMAIN M[i] |-> val[M[i][j]]])]
Result(M, coord) == [data |-> Vec("k", "i8", SumOf(M)), coords |-> [n \in {"k"} |-> coord], masks |-> NoMap, name |-> ""]
ByValue == Members(key, FALSE, <<>>)
ByBins == Members(key, TRUE, edges)
InOne(M, j) == Cardinality({i \in DOMAIN M : \E p \in DOMAIN M[i] : M[i][p] = j}) = 1
Values1 == stage = 0 =>
    /\ \A j \in DOMAIN key : InOne(ByValue, j)
    /\ FoldSum(SumOf(ByValue)) = FoldSum(val)
    /\ LET g == GroupValues(key) IN \A i, j \in DOMAIN g : i < j => g[i] # g[j] /\ (~IsNaN(g[j]) => g[i] < g[j])
    /\ LET c == Vec("k", "f8", GroupValues(key))  r == Result(ByValue, c)
           fine(q) == GroupOk("sum", Arr, "row", Vec("row", "f8", key), FALSE, c, "k", FALSE, TRUE, q)
       IN fine(r) /\ \A i \in DOMAIN r.data.v : ~fine([r EXCEPT !.data.v[i] = @ + 1])
Bins1 == stage = 1 =>
    LET M == ByBins  r == Result(M, Vec("k", "f8", edges))
        fine(q) == GroupOk("sum", Arr, "row", Vec("row", "f8", key), TRUE, Vec("k", "f8", edges), "k", FALSE, TRUE, q)
    IN /\ \A j \in DOMAIN key : LET in == ~IsNaN(key[j]) /\ edges[1] <= key[j] /\ key[j] < edges[Len(edges)] IN (in <=> InOne(M, j))
       /\ fine(r) /\ \A i \in DOMAIN r.data.v : ~fine([r EXCEPT !.data.v[i] = @ + 1])
\* leaving out an inner edge merges two neighbouring groups
Merging == stage = 1 /\ Len(edges) >= 3 => \A e \in 2..(Len(edges) - 1) :
    LET less == [i \in 1..(Len(edges) - 1) |-> IF i < e THEN edges[i] ELSE edges[i + 1]]
        fine == SumOf(ByBins)  coarse == SumOf(Members(key, TRUE, less))
    IN coarse = [i \in 1..(Len(edges) - 2) |-> IF i < e - 1 THEN fine[i] ELSE IF i = e - 1 THEN fine[i] + fine[i + 1] ELSE fine[i + 1]]
=============================================================================
