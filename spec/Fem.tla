-------------------------------- MODULE Fem --------------------------------
(* Finite elements on triangles, exactly.  A polynomial on a triangle is a   *)
(* sequence of terms <<coefficient, <<a, b, c>>>> meaning                    *)
(* coefficient * L1^a L2^b L3^c in the barycentric coordinates L1, L2, L3.   *)
(* Points have whole coordinates, nodes are counted from 1.                  *)
EXTENDS Num, FiniteSets, TLC

E3(k) == [i \in 1..3 |-> IF i = k THEN 1 ELSE 0]
E3x(a, b) == [i \in 1..3 |-> E3(a)[i] + E3(b)[i]]
\* the nodes of a triangle: its vertices and, for order 2, the midpoints of 1-2, 2-3, 3-1
Sides == <<<<1, 2>>, <<2, 3>>, <<3, 1>>>>
NodesOf(order) == IF order = 1 THEN 3 ELSE 6
Phi(order, k) ==
    IF order = 1 THEN <<<<One, E3(k)>>>>
    ELSE IF k <= 3 THEN <<<<N(2), E3x(k, k)>>, <<N(-1), E3(k)>>>>
    ELSE <<<<N(4), E3x(Sides[k - 3][1], Sides[k - 3][2])>>>>
\* formal derivative by the c-th coordinate
Deriv(p, c) == [t \in 1..Len(p) |-> <<Mul(N(p[t][2][c]), p[t][1]), [i \in 1..3 |-> IF i = c THEN IMax(0, p[t][2][i] - 1) ELSE p[t][2][i]]>>]
Times(p, q) == [m \in 1..(Len(p) * Len(q)) |->
    LET s == p[1 + ((m - 1) \div Len(q))] t == q[1 + ((m - 1) % Len(q))] IN <<Mul(s[1], t[1]), [i \in 1..3 |-> s[2][i] + t[2][i]]>>]
Fact(n) == CASE n = 0 -> 1 [] n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 6 [] n = 4 -> 24 [] n = 5 -> 120 [] n = 6 -> 720 [] OTHER -> Assert(FALSE, n)
RECURSIVE SumSeqN(_, _)
SumSeqN(s, n) == IF n = 0 THEN Zero ELSE Add(SumSeqN(s, n - 1), s[n])
Total(s) == SumSeqN(s, Len(s))
\* the integral over a triangle of determinant 1 (area 1/2)
Integral(p) == Total([t \in 1..Len(p) |-> LET a == p[t][2] IN Mul(p[t][1], Frac(Fact(a[1]) * Fact(a[2]) * Fact(a[3]), Fact(a[1] + a[2] + a[3] + 2)))])
RECURSIVE NPow(_, _)
NPow(x, n) == IF n = 0 THEN One ELSE Mul(x, NPow(x, n - 1))
EvalAt(p, L) == Total([t \in 1..Len(p) |-> Mul(p[t][1], Mul(NPow(L[1], p[t][2][1]), Mul(NPow(L[2], p[t][2][2]), NPow(L[3], p[t][2][3]))))])

\* tables for the two orders
StiffT == [o \in 1..2 |-> [i \in 1..NodesOf(o) |-> [j \in 1..NodesOf(o) |-> [a \in 1..3 |-> [b \in 1..3 |-> TLCEval(Integral(Times(Deriv(Phi(o, i), a), Deriv(Phi(o, j), b))))]]]]]
MassT == [o \in 1..2 |-> [i \in 1..NodesOf(o) |-> [j \in 1..NodesOf(o) |-> TLCEval(Integral(Times(Phi(o, i), Phi(o, j))))]]]
LoadT == [o \in 1..2 |-> [i \in 1..NodesOf(o) |-> [c \in 1..3 |-> TLCEval(Integral(Times(Phi(o, i), <<<<One, E3(c)>>>>)))]]]

\* ---- a triangle, given as its three points
Det3(t) == (t[2][1] - t[1][1]) * (t[3][2] - t[1][2]) - (t[2][2] - t[1][2]) * (t[3][1] - t[1][1])
Size(t) == IAbs(Det3(t))
\* the side opposite the a-th vertex
Opp(t, a) == LET b == 1 + (a % 3) c == 1 + ((a + 1) % 3) IN <<t[c][1] - t[b][1], t[c][2] - t[b][2]>>
OppDot(t, a, b) == LET p == Opp(t, a) q == Opp(t, b) IN p[1] * q[1] + p[2] * q[2]
\* the gradient of the a-th coordinate is the side turned by a right angle over the determinant
GradL(t, a) == LET s == Opp(t, a) d == Det3(t) IN <<Frac(-s[2], d), Frac(s[1], d)>>
Total9(F) == Total([m \in 1..9 |-> F[1 + ((m - 1) \div 3)][1 + ((m - 1) % 3)]])
StiffLocal(o, t, i, j) == Total9([a \in 1..3 |-> [b \in 1..3 |-> Mul(Frac(OppDot(t, a, b), Size(t)), StiffT[o][i][j][a][b])]])
MassLocal(o, t, i, j) == Mul(N(Size(t)), MassT[o][i][j])
\* f linear on the triangle, given at the vertices
LoadLocal(o, t, f, i) == Mul(N(Size(t)), Total([c \in 1..3 |-> Mul(f[c], LoadT[o][i][c])]))

\* ---- polynomials of the plane u = u1 + u2 x + u3 y + u4 x^2 + u5 x y + u6 y^2, with minus the Laplacian of it and its gradient
U(u, p) == u[1] + u[2] * p[1] + u[3] * p[2] + u[4] * p[1] * p[1] + u[5] * p[1] * p[2] + u[6] * p[2] * p[2]
MinusLap(u) == - (2 * u[4] + 2 * u[6])
UN(u, p) == LET x == p[1] y == p[2] T(c, z) == Mul(N(c), z) IN
    Total(<<N(u[1]), T(u[2], x), T(u[3], y), T(u[4], Mul(x, x)), T(u[5], Mul(x, y)), T(u[6], Mul(y, y))>>)
GradUN(u, p) == LET x == p[1] y == p[2] T(c, z) == Mul(N(c), z) IN
    <<Total(<<N(u[2]), T(2 * u[4], x), T(u[5], y)>>), Total(<<N(u[3]), T(u[5], x), T(2 * u[6], y)>>)>>
\* al (- Lap u) + c u
Source(u, al, c, p) == N(al * MinusLap(u) + c * U(u, p))

\* ---- the system of a mesh: p the positions of the nodes, t the nodes of the triangles (as many as the order has)
Corner(p, t, e) == <<p[t[e][1]], p[t[e][2]], p[t[e][3]]>>
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
InSeq(s, x) == \E k \in 1..Len(s) : s[k] = x
RECURSIVE SumSet(_, _)
SumSet(S, F) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN Add(F[x], SumSet(S \ {x}, F))
StarOf(t, i) == {e \in 1..Len(t) : InSeq(t[e], i)}
Entry(o, p, t, star, al, c, i, j) ==
    LET S == {e \in star : InSeq(t[e], j)} IN
    SumSet(S, [e \in S |-> LET q == Corner(p, t, e) a == PosIn(t[e], i) b == PosIn(t[e], j) IN
        Add(Mul(N(al), StiffLocal(o, q, a, b)), IF c = 0 THEN Zero ELSE Mul(N(c), MassLocal(o, q, a, b)))])
Rhs(o, p, t, star, u, al, c, i) ==
    SumSet(star, [e \in star |-> LET q == Corner(p, t, e) IN LoadLocal(o, q, [k \in 1..3 |-> Source(u, al, c, q[k])], PosIn(t[e], i))])
\* nodes that share a triangle with node i
Near(t, star) == UNION {{t[e][k] : k \in 1..Len(t[e])} : e \in star}
RowSum(o, p, t, star, al, c, i, x) == LET S == Near(t, star) IN SumSet(S, [j \in S |-> Mul(Entry(o, p, t, star, al, c, i, j), x[j])])
\* the integral over the mesh of the function with the nodal values x
UnitT == [o \in 1..2 |-> [k \in 1..NodesOf(o) |-> TLCEval(Integral(Phi(o, k)))]]
Volume(o, p, t, x) == SumSet(1..Len(t), [e \in 1..Len(t) |-> Mul(N(Size(Corner(p, t, e))), Total([k \in 1..NodesOf(o) |-> Mul(UnitT[o][k], x[t[e][k]])]))])
\* value and gradient at the barycentric coordinates L in triangle e of the function with nodal values x
ValueAt(o, t, e, x, L) == Total([k \in 1..NodesOf(o) |-> Mul(x[t[e][k]], EvalAt(Phi(o, k), L))])

\* ---- meshes
Tips(t, e) == {t[e][1], t[e][2], t[e][3]}
EdgesOf(t) == UNION {{{t[e][s[1]], t[e][s[2]]} : s \in {Sides[1], Sides[2], Sides[3]}} : e \in 1..Len(t)}
BoundaryEdges(t) == {g \in EdgesOf(t) : Cardinality({e \in 1..Len(t) : g \subseteq Tips(t, e)}) = 1}
Mid2(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
=============================================================================
