------------------------------ MODULE Spatial ------------------------------
(* P07. Transformations of 3-vectors with exact rational entries.
   A transformation acts as v |-> (A v + t) / d with integer matrix A, integer
   vector t and denominator d; `k` is its kind: rotation, linear, translation
   or affine.  Rotations are given by integer quaternions <<x,y,z,w>> that
   stand for the normalised quaternion.                                       *)
EXTENDS Integers, Sequences
I3 == 1..3
AbsS(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdS(_, _)
GcdS(a, b) == IF b = 0 THEN a ELSE GcdS(b, a % b)
Id3 == [i \in I3 |-> [j \in I3 |-> IF i = j THEN 1 ELSE 0]]
Zero3 == [i \in I3 |-> 0]
MM(A, B) == [i \in I3 |-> [j \in I3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
MV(A, v) == [i \in I3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]]
SM(s, A) == [i \in I3 |-> [j \in I3 |-> s * A[i][j]]]
SV(s, v) == [i \in I3 |-> s * v[i]]
AddV(u, v) == [i \in I3 |-> u[i] + v[i]]
Det(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2])
        - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1])
        + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Nx(i) == (i % 3) + 1
Adj(A) == [i \in I3 |-> [j \in I3 |-> LET r == Nx(j) s == Nx(Nx(j)) p == Nx(i) q == Nx(Nx(i))
                                       IN A[r][p] * A[s][q] - A[r][q] * A[s][p]]]

\* --- quaternions <<x, y, z, w>> --------------------------------------------
QN(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Hamilton(p, q) ==
  << p[4] * q[1] + p[1] * q[4] + p[2] * q[3] - p[3] * q[2],
     p[4] * q[2] - p[1] * q[3] + p[2] * q[4] + p[3] * q[1],
     p[4] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[4],
     p[4] * q[4] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3] >>
Conj(q) == <<-q[1], -q[2], -q[3], q[4]>>
RotMat(q) == LET x == q[1] y == q[2] z == q[3] w == q[4] IN
  << << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y) >>,
     << 2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x) >>,
     << 2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >> >>

\* --- transformations ---------------------------------------------------------
Reduce(T) == LET g0 == GcdS(T.d, GcdS(AbsS(T.A[1][1]), GcdS(AbsS(T.A[1][2]), AbsS(T.A[1][3]))))
                 g1 == GcdS(g0, GcdS(AbsS(T.A[2][1]), GcdS(AbsS(T.A[2][2]), AbsS(T.A[2][3]))))
                 g2 == GcdS(g1, GcdS(AbsS(T.A[3][1]), GcdS(AbsS(T.A[3][2]), AbsS(T.A[3][3]))))
                 g == GcdS(g2, GcdS(AbsS(T.t[1]), GcdS(AbsS(T.t[2]), AbsS(T.t[3]))))
             IN [k |-> T.k, A |-> [i \in I3 |-> [j \in I3 |-> T.A[i][j] \div g]],
                 t |-> [i \in I3 |-> T.t[i] \div g], d |-> T.d \div g]
Mk(p) == CASE p.k = "rot" -> Reduce([k |-> "rot", A |-> RotMat(p.q), t |-> Zero3, d |-> QN(p.q)])
           [] p.k = "lin" -> [k |-> "lin", A |-> p.A, t |-> Zero3, d |-> 1]
           [] p.k = "tr"  -> [k |-> "tr", A |-> Id3, t |-> p.t, d |-> 1]
           [] p.k = "aff" -> [k |-> "aff", A |-> p.A, t |-> p.t, d |-> 1]
\* rotations with rotations stay rotations, translations with translations stay
\* translations, rotations and linear maps give linear maps, the rest is affine
KindOf(a, b) == IF a = b THEN a ELSE IF {a, b} = {"rot", "lin"} THEN "lin" ELSE "aff"
\* (a after b)
Compose(a, b) == Reduce([k |-> KindOf(a.k, b.k), A |-> MM(a.A, b.A),
                         t |-> AddV(MV(a.A, b.t), SV(b.d, a.t)), d |-> a.d * b.d])
Inverse(T) == LET dt == Det(T.A)  s == IF dt < 0 THEN -1 ELSE 1 IN
   Reduce([k |-> T.k, A |-> SM(s * T.d, Adj(T.A)), t |-> SV(-s, MV(Adj(T.A), T.t)), d |-> s * dt])
Identity == [k |-> "rot", A |-> Id3, t |-> Zero3, d |-> 1]
\* action on the vector v / e, as <<numerator vector, denominator>>
ActQ(T, v, e) == <<AddV(MV(T.A, v), SV(e, T.t)), T.d * e>>
\* exponents <<m, s>> of the unit of a product, or refused
HasT(k) == k \in {"tr", "aff"}
UnitRefused(ka, kb, ua, ub) == HasT(ka) /\ (HasT(kb) \/ kb = "vec") /\ ua # ub
UnitProd(ka, kb, ua, ub) == IF HasT(ka) /\ (HasT(kb) \/ kb = "vec") THEN ua ELSE <<ua[1] + ub[1], ua[2] + ub[2]>>
InvUnit(k, u) == IF HasT(k) THEN u ELSE <<-u[1], -u[2]>>
=============================================================================
