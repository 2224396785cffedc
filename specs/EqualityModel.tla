---------------------------- MODULE EqualityModel ----------------------------
(* Laws of equality and copies (P21), for all triples of a family of arrays that
   differ in single aspects or in several.                                    *)
EXTENDS Equality
CONSTANTS Values, Shapes2, Meta, Deep
Units2 == {<<0, 0, 0>>, <<1, 0, 0>>}
VARIABLES a, b, c
vars == <<a, b, c>>
NaN1 == 2000000001
V0(d, t, u, v, w) == [d |-> d, v |-> v, w |-> w, hv |-> w # <<>>, u |-> u, t |-> t, ro |-> FALSE]
ShapeNo(i) == CASE i = 1 -> << <<"x", 2>>, <<"y", 1>> >> [] i = 2 -> << <<"y", 1>>, <<"x", 2>> >> [] i = 3 -> << <<"z", 2>>, <<"y", 1>> >> [] i = 4 -> << <<"x", 0>> >>
Two(i, p, q) == IF i = 4 THEN <<>> ELSE <<p, q>>
C0(al, v) == [V0(<<>>, "f8", NoUnit, <<v>>, <<>>) EXCEPT !.ro = TRUE] @@ [al |-> al]
CoordSets == {<<>>} \cup {[k |-> C0(al, v)] : al \in BOOLEAN, v \in Values}
MaskSets == {<<>>, [m |-> V0(<<>>, "bool", NoUnit, <<0>>, <<>>)], [n |-> V0(<<>>, "bool", NoUnit, <<0>>, <<>>)]}
Data == {V0(ShapeNo(i), t, u, Two(i, p, q), IF hv THEN Two(i, p, 1) ELSE <<>>) :
         i \in Shapes2, t \in {"f8", "f4"}, u \in Units2, p \in Values, q \in Values, hv \in BOOLEAN}
Arrays0 == IF Meta THEN {[data |-> v, coords |-> cs, masks |-> ms] : v \in Data, cs \in CoordSets, ms \in MaskSets} ELSE Data
Init == a \in Arrays0 /\ b = <<>> /\ c = <<>>
\* b, then c
Next == \/ b = <<>> /\ b' \in Arrays0 /\ UNCHANGED <<a, c>>
        \/ Deep /\ b # <<>> /\ c = <<>> /\ c' \in Arrays0 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
HasNaN(o) == ~Eq(o, o, FALSE)
Reflexive == Eq(a, a, TRUE) /\ Eq(DeepCopy(a), a, TRUE) /\ Loosely(DeepCopy(a)) = Loosely(a)
Pairs == b # <<>> => /\ \A n \in BOOLEAN : Eq(a, b, n) = Eq(b, a, n)
                     /\ Eq(a, b, FALSE) => Eq(a, b, TRUE)
                     /\ (Eq(a, b, TRUE) /\ ~Eq(a, b, FALSE)) => HasNaN(a) /\ HasNaN(b)
                     /\ Eq(a, b, TRUE) <=> Loosely(a) = Loosely(b)
Transitive == c # <<>> => \A n \in BOOLEAN : Eq(a, b, n) /\ Eq(b, c, n) => Eq(a, c, n)
=============================================================================
