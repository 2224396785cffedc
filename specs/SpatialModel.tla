---------------------------- MODULE SpatialModel ----------------------------
(* All chains of up to MaxLen primitive transformations.  The state is the chain
   and the transformation composed so far (from the left, or from the right); the
   invariants say that the composition acts like the parts one after the other,
   that association does not matter and that the inverse undoes the action.     *)
EXTENDS Spatial, TraceIO, FiniteSets
CONSTANTS MaxLen, Gen
Mats == << << <<1,2,0>>, <<0,1,0>>, <<0,0,1>> >>, << <<0,0,2>>, <<1,0,0>>, <<0,-1,0>> >>,
           << <<2,0,0>>, <<0,3,0>>, <<0,0,-1>> >>, << <<1,1,1>>, <<0,1,-1>>, <<2,0,1>> >> >>
Prims == << [k |-> "rot", q |-> <<0,0,0,1>>], [k |-> "rot", q |-> <<1,0,0,0>>], [k |-> "rot", q |-> <<0,1,0,1>>],
            [k |-> "rot", q |-> <<1,1,1,1>>], [k |-> "rot", q |-> <<-1,1,0,0>>], [k |-> "rot", q |-> <<1,0,2,-1>>],
            [k |-> "tr", t |-> <<1,2,3>>], [k |-> "tr", t |-> <<-2,0,1>>], [k |-> "tr", t |-> <<0,0,0>>],
            [k |-> "lin", A |-> Mats[1]], [k |-> "lin", A |-> Mats[2]], [k |-> "lin", A |-> Mats[3]],
            [k |-> "aff", A |-> Mats[4], t |-> <<1,-1,2>>], [k |-> "aff", A |-> Mats[2], t |-> <<0,3,0>>],
            [k |-> "aff", A |-> Id3, t |-> <<0,-1,0>>] >>
VARIABLES ch, left, right
vars == <<ch, left, right>>
Init == ch = <<>> /\ left = Identity /\ right = Identity
\* chain T1 * T2 * ... * Tn, extended at its right end
Ext(i) == /\ Len(ch) < MaxLen /\ ch' = Append(ch, i)
          /\ left' = IF ch = <<>> THEN Mk(Prims[i]) ELSE Compose(left, Mk(Prims[i]))
          /\ right' = LET RECURSIVE R(_) R(s) == IF Len(s) = 1 THEN Mk(Prims[s[1]]) ELSE Compose(Mk(Prims[s[1]]), R(Tail(s)))
                      IN R(ch')
          /\ Gen => Emit([op |-> "compose", parts |-> [j \in 1..Len(ch') |-> Prims[ch'[j]]]])
Next == \E i \in 1..Len(Prims) : Ext(i)
Spec == Init /\ [][Next]_vars
Vecs == {<<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<2,-1,3>>}
SameQ(x, y) == SV(y[2], x[1]) = SV(x[2], y[1])
RECURSIVE Seq2(_, _)
\* rightmost part first
Seq2(c, ve) == IF c = <<>> THEN ve ELSE Seq2(SubSeq(c, 1, Len(c) - 1), ActQ(Mk(Prims[c[Len(c)]]), ve[1], ve[2]))
Composed == ch # <<>> => \A v \in Vecs : SameQ(ActQ(left, v, 1), Seq2(ch, <<v, 1>>))
Assoc == left = right
Undo == /\ Det(left.A) # 0
        /\ LET iv == Inverse(left) IN
            /\ \A v \in Vecs : LET x == ActQ(left, v, 1) IN SameQ(ActQ(iv, x[1], x[2]), <<v, 1>>)
            /\ iv.k = left.k
            /\ Inverse(iv) = left
\* kinds are a join semilattice: the kind only depends on the set of kinds
KindOk == ch # <<>> => LET K == {Prims[ch[j]].k : j \in 1..Len(ch)} IN
   left.k = IF Cardinality(K) = 1 THEN CHOOSE x \in K : TRUE ELSE IF K = {"rot", "lin"} THEN "lin" ELSE "aff"
\* composition of rotations is the quaternion product
HamiltonOk == \A i, j \in 1..6 : Compose(Mk(Prims[i]), Mk(Prims[j])) = Mk([k |-> "rot", q |-> Hamilton(Prims[i].q, Prims[j].q)])
ASSUME HamiltonOk
=============================================================================
