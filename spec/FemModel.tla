------------------------------ MODULE FemModel ------------------------------
(* What the assembled system of Fem.tla must satisfy, on every mesh made by  *)
(* adding triangles one after another around a patch of grid points.         *)
EXTENDS Fem
CONSTANTS Order, MaxT
VARIABLES tri
Us == {<<1, 2, -1, 0, 0, 0>>, <<0, 1, 1, 1, -2, 3>>, <<2, 0, 0, 0, 1, 0>>}
vars == <<tri>>
Pts == <<<<0, 0>>, <<8, 0>>, <<0, 8>>, <<2, 2>>, <<8, 6>>>>
Cand == {t \in {<<a, b, c>> : a, b, c \in 1..Len(Pts)} : Cardinality({t[1], t[2], t[3]}) = 3 /\ Det3([i \in 1..3 |-> Pts[t[i]]]) # 0}
\* the interior of triangle s meets that of t: some point of a fine lattice lies inside both
Fine == {<<x, y>> : x \in 0..24, y \in 0..24}
Side(a, b, x) == (b[1] - a[1]) * (x[2] - 3 * a[2]) - (b[2] - a[2]) * (x[1] - 3 * a[1])
Inside(t, x) == LET P(k) == Pts[t[k]] d1 == Side(P(1), P(2), x) d2 == Side(P(2), P(3), x) d3 == Side(P(3), P(1), x) IN (d1 > 0 /\ d2 > 0 /\ d3 > 0) \/ (d1 < 0 /\ d2 < 0 /\ d3 < 0)
Area(t) == TLCEval({x \in Fine : Inside(t, x)})
Touch(t) == {x \in 1..Len(Pts) : x \notin {t[1], t[2], t[3]} /\ LET X == <<3 * Pts[x][1], 3 * Pts[x][2]>> IN Inside(t, X) \/
                \E s \in {<<1, 2>>, <<2, 3>>, <<3, 1>>} : LET a == Pts[t[s[1]]] b == Pts[t[s[2]]] IN Side(a, b, X) = 0 /\ (Pts[x][1] - a[1]) * (Pts[x][1] - b[1]) + (Pts[x][2] - a[2]) * (Pts[x][2] - b[2]) <= 0}
Fit == {t \in Cand : Touch(t) = {}}
Init == tri = <<>>
Place == \E t \in Fit : /\ Len(tri) < MaxT
                        /\ (Len(tri) = 0 => t[1] < t[2])
                        /\ (Len(tri) > 0 => \E e \in 1..Len(tri) : Cardinality({t[1], t[2], t[3]} \cap Tips(tri, e)) = 2)
                        /\ \A e \in 1..Len(tri) : Area(t) \cap Area(tri[e]) = {}
                        /\ tri' = Append(tri, t)
Next == Place
Spec == Init /\ [][Next]_vars

\* ---- numbering of the nodes: the points used, then the midpoints
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Used == SetSeq(UNION {Tips(tri, e) : e \in 1..Len(tri)})
Egs == SetSeq(EdgesOf(tri))
Ends(g) == LET a == CHOOSE a \in g : TRUE IN <<Pts[a], Pts[CHOOSE b \in g : b # a]>>
P == [k \in 1..Len(Used) |-> Pts[Used[k]]] \o (IF Order = 1 THEN <<>> ELSE [k \in 1..Len(Egs) |-> LET z == Ends(Egs[k]) IN Mid2(z[1], z[2])])
T == [e \in 1..Len(tri) |-> [k \in 1..NodesOf(Order) |->
        IF k <= 3 THEN PosIn(Used, tri[e][k]) ELSE Len(Used) + PosIn(Egs, {tri[e][Sides[k - 3][1]], tri[e][Sides[k - 3][2]]})]]
Edge == UNION {{PosIn(Used, v) : v \in g} : g \in BoundaryEdges(tri)} \cup (IF Order = 1 THEN {} ELSE {Len(Used) + k : k \in {k \in 1..Len(Egs) : Egs[k] \in BoundaryEdges(tri)}})
Inner == (1..Len(P)) \ Edge

\* the rows of the stiffness matrix sum to zero, it is symmetric, the polynomials of the order solve the inner equations
Sound == Len(tri) > 0 =>
    LET p == TLCEval(P) t == TLCEval(T) star == TLCEval([i \in 1..Len(p) |-> StarOf(t, i)]) inner == TLCEval(Inner) IN
    /\ \A i \in 1..Len(p) : RowSum(Order, p, t, star[i], 1, 0, i, [j \in 1..Len(p) |-> One]) = Zero
    /\ \A i \in 1..Len(p) : \A j \in Near(t, star[i]) : j >= i \/ Entry(Order, p, t, star[i], 1, 1, i, j) = Entry(Order, p, t, star[j], 1, 1, j, i)
    /\ \A i \in inner : \A u \in Us : LET x == [j \in 1..Len(p) |-> N(U(u, p[j]))] IN
          /\ (Order = 1 => u[4] = 0 /\ u[5] = 0 /\ u[6] = 0) => RowSum(Order, p, t, star[i], 2, 0, i, x) = Rhs(Order, p, t, star[i], u, 2, 0, i)
          /\ (u[4] = 0 /\ u[5] = 0 /\ u[6] = 0) => RowSum(Order, p, t, star[i], 1, 3, i, x) = Rhs(Order, p, t, star[i], u, 1, 3, i)
\* the shape functions: 1 at their own node, 0 at the others, their sum is one
Lagrange == \A k, m \in 1..NodesOf(Order) :
    EvalAt(Phi(Order, k), IF m <= 3 THEN [i \in 1..3 |-> N(E3(m)[i])] ELSE [i \in 1..3 |-> Frac(E3x(Sides[m - 3][1], Sides[m - 3][2])[i], 2)]) = (IF k = m THEN One ELSE Zero)
AreaIsSum == Volume(Order, P, T, [j \in 1..Len(P) |-> One]) = SumSet(1..Len(tri), [e \in 1..Len(tri) |-> Frac(Size([i \in 1..3 |-> Pts[tri[e][i]]]), 2)])
=============================================================================
