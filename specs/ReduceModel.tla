---------------------------- MODULE ReduceModel ----------------------------
(* The definitions of reductions in Arrays do not depend on the order in which
   elements are visited, nor on cutting them into chunks that are reduced one by
   one (how work is split among threads); scans satisfy their recurrence.  All
   sequences of up to MaxLen elements over Values.                             *)
EXTENDS Arrays
CONSTANT MaxLen
Values == {-2, 0, 1, NaNTok, PInf, NInf}
F == {"sum", "nansum", "min", "max", "nanmin", "nanmax"}
VARIABLES q
Init == q = <<>>
Next == Len(q) < MaxLen /\ \E v \in Values : q' = Append(q, <<v, (Len(q) % 3)>>)
Spec == Init /\ [][Next]_q
Val(f, s) == LET r == Reduce(f, "f8", s) IN {e[1] : e \in r}
One(S) == CHOOSE x \in S : TRUE
\* reducing the results of two chunks (neutral results of empty chunks: none) gives the result
Amb(f) == f = "nansum" /\ {PInf, NInf} \subseteq ToSetQ(Plain(q))     \* inf - inf yields a NaN on the way
Chunked == \A f \in {f \in F : ~Amb(f)} : \A k \in 0..Len(q) :
    LET a == SubSeq(q, 1, k)  b == Suffix(q, k + 1)
        part(s) == IF s = <<>> \/ (f \in Extremes /\ (IF f \in {"nanmin", "nanmax"} THEN NotNaN(s) ELSE s) = <<>>) THEN <<>> ELSE << <<One(Val(f, s)), 0>> >>
    IN Val(f, part(a) \o part(b)) = Val(f, q) \/ (part(a) \o part(b) = <<>> /\ Val(f, q) \in {{HiTok}, {LoTok}, {0}})
Unordered == \A f \in F : Val(f, [i \in DOMAIN q |-> q[Len(q) + 1 - i]]) = Val(f, q)
Single == \A f \in F : Cardinality(Val(f, q)) = 1
Recurrence == LET s == Scan(Plain(q), TRUE)  x == Scan(Plain(q), FALSE) IN
    \A i \in DOMAIN q : s[i] = AddTok(x[i], q[i][1]) /\ x[i] = (IF i = 1 THEN 0 ELSE s[i - 1])
Laws == Chunked /\ Unordered /\ Single /\ Recurrence
=============================================================================
