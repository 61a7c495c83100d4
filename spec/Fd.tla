--------------------------------- MODULE Fd ---------------------------------
(* Finite differences for u_t - k (u_xx + u_yy) = f on a rectangle with      *)
(* prescribed values on the rim and at time 0, implicit in time; without     *)
(* time (nt = 0) the Poisson equation -k (u_xx + u_yy) = f.                  *)
(* u(t, x, y) = p(x, y) + t q(x, y), p and q of degree at most 3, for which  *)
(* the difference quotients are exact: the scheme returns u at the nodes.    *)
(* c: the configuration, a record with the number of columns and rows of     *)
(* nodes xc and yc, time steps nt, steps hx, hy, ht, the corner x0, y0, the  *)
(* coefficient k and the coefficients p and q.                               *)
EXTENDS Num, TLC

\* 1, x, y, xx, xy, yy, xxx, xxy, xyy, yyy
Poly(u, x, y) == u[1] + u[2] * x + u[3] * y + u[4] * x * x + u[5] * x * y + u[6] * y * y
                 + u[7] * x * x * x + u[8] * x * x * y + u[9] * x * y * y + u[10] * y * y * y
Laplace(u, x, y) == 2 * u[4] + 2 * u[6] + 6 * u[7] * x + 2 * u[8] * y + 2 * u[9] * x + 6 * u[10] * y

Count(c) == (c.nt + 1) * c.xc * c.yc
\* nodes are counted from 1: time by time, row by row
TimeOf(c, n) == (n - 1) \div (c.xc * c.yc)
RowOf(c, n) == ((n - 1) % (c.xc * c.yc)) \div c.xc
ColOf(c, n) == (n - 1) % c.xc
Node(c, t, i, j) == t * c.xc * c.yc + j * c.xc + i + 1
X(c, i) == c.x0 + i * c.hx
Y(c, j) == c.y0 + j * c.hy
Value(c, t, i, j) == Poly(c.p, X(c, i), Y(c, j)) + t * c.ht * Poly(c.q, X(c, i), Y(c, j))
Given(c, t, i, j) == (c.nt > 0 /\ t = 0) \/ i = 0 \/ j = 0 \/ i = c.xc - 1 \/ j = c.yc - 1
Source(c, t, i, j) == LET x == X(c, i) y == Y(c, j) IN
    (IF c.nt = 0 THEN 0 ELSE Poly(c.q, x, y)) - c.k * (Laplace(c.p, x, y) + t * c.ht * Laplace(c.q, x, y))
Fx(c) == Frac(c.k, c.hx * c.hx)
Fy(c) == Frac(c.k, c.hy * c.hy)
Ft(c) == IF c.nt = 0 THEN Zero ELSE Frac(1, c.ht)
Middle(c) == Add(Ft(c), Add(Add(Fx(c), Fx(c)), Add(Fy(c), Fy(c))))

\* the equation of node n: pairs of column and entry
Equation(c, n) == LET t == TimeOf(c, n) i == ColOf(c, n) j == RowOf(c, n) IN
    IF Given(c, t, i, j) THEN {<<n, One>>}
    ELSE {<<n, Middle(c)>>, <<Node(c, t, i - 1, j), Neg(Fx(c))>>, <<Node(c, t, i + 1, j), Neg(Fx(c))>>,
          <<Node(c, t, i, j - 1), Neg(Fy(c))>>, <<Node(c, t, i, j + 1), Neg(Fy(c))>>}
         \cup (IF c.nt = 0 THEN {} ELSE {<<Node(c, t - 1, i, j), Neg(Ft(c))>>})
RightSide(c, n) == LET t == TimeOf(c, n) i == ColOf(c, n) j == RowOf(c, n) IN
    N(IF Given(c, t, i, j) THEN Value(c, t, i, j) ELSE Source(c, t, i, j))
Exact(c, n) == N(Value(c, TimeOf(c, n), ColOf(c, n), RowOf(c, n)))

\* one time step for the inner nodes alone, counted row by row from 1
Inner(c) == (c.xc - 2) * (c.yc - 2)
ICol(c, m) == 1 + ((m - 1) % (c.xc - 2))
IRow(c, m) == 1 + ((m - 1) \div (c.xc - 2))
INode(c, i, j) == (j - 1) * (c.xc - 2) + i
InnerEquation(c, m) == LET i == ICol(c, m) j == IRow(c, m) IN
    {<<m, Middle(c)>>} \cup (IF i > 1 THEN {<<INode(c, i - 1, j), Neg(Fx(c))>>} ELSE {})
                       \cup (IF i < c.xc - 2 THEN {<<INode(c, i + 1, j), Neg(Fx(c))>>} ELSE {})
                       \cup (IF j > 1 THEN {<<INode(c, i, j - 1), Neg(Fy(c))>>} ELSE {})
                       \cup (IF j < c.yc - 2 THEN {<<INode(c, i, j + 1), Neg(Fy(c))>>} ELSE {})
\* the right-hand side of the step to time t from the values v of the inner nodes
InnerRight(c, t, v, m) == LET i == ICol(c, m) j == IRow(c, m) W(a, b) == N(Value(c, t, a, b)) IN
    Add(Add(N(Source(c, t, i, j)), Mul(Ft(c), v[m])),
        Add(Add(IF i = 1 THEN Mul(Fx(c), W(0, j)) ELSE Zero, IF i = c.xc - 2 THEN Mul(Fx(c), W(c.xc - 1, j)) ELSE Zero),
            Add(IF j = 1 THEN Mul(Fy(c), W(i, 0)) ELSE Zero, IF j = c.yc - 2 THEN Mul(Fy(c), W(i, c.yc - 1)) ELSE Zero)))
=============================================================================
