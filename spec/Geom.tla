-------------------------------- MODULE Geom --------------------------------
(* Exact geometry of a triangle, the Lagrange basis on a simplex, integrals  *)
(* of monomials over the unit simplex, generalised cross product and natural *)
(* numbers of any size.                                                      *)
EXTENDS LinAlg

(* ---------------------------------------------- triangles: P = <<p0, p1, p2>> *)
Edge(P, i, j) == <<Sub(P[j][1], P[i][1]), Sub(P[j][2], P[i][2])>>
TriMatrix(P) == LET a == Edge(P, 1, 2) b == Edge(P, 1, 3) IN <<<<a[1], b[1]>>, <<a[2], b[2]>>>>
Det2(M) == Sub(Mul(M[1][1], M[2][2]), Mul(M[1][2], M[2][1]))
TriDet(P) == Det2(TriMatrix(P))
Len2(v) == Dot(v, v)
Next3(i) == (i % 3) + 1
\* gradient of the barycentric coordinate of vertex i, times the determinant: the opposite edge turned by a right angle
GradD(P, i) == LET e == Edge(P, Next3(i), Next3(Next3(i))) IN <<Neg(e[2]), e[1]>>
\* c is at the same distance from all three vertices
Centre(P, c, D) == \* c given times 2 D
    \A i \in 2..3 : LET e == Edge(P, 1, i)
                        rel == <<Sub(c[1], Mul(Mul(N(2), D), P[1][1])), Sub(c[2], Mul(Mul(N(2), D), P[1][2]))>>
                    IN Dot(rel, e) = Mul(D, Len2(e))

(* ---------------------------------------------- Lagrange basis of order n *)
\* a jet <<v, d, dd>>: value, first and second derivative along one axis
JC(c) == <<c, Zero, Zero>>
JMul(x, y) == <<Mul(x[1], y[1]), Add(Mul(x[2], y[1]), Mul(x[1], y[2])),
                Add(Add(Mul(x[3], y[1]), Mul(N(2), Mul(x[2], y[2]))), Mul(x[1], y[3]))>>
RECURSIVE JProd(_, _)
JProd(s, n) == IF n = 0 THEN JC(One) ELSE JMul(JProd(s, n - 1), s[n])
\* (n t - 0)(n t - 1)...(n t - (a-1)) / a!  for the barycentric coordinate with jet t
Lam(n, t, a) == JProd([j \in 1..a |-> <<Div(Sub(Mul(N(n), t[1]), N(j - 1)), N(j)), Mul(Frac(n, j), t[2]), Zero>>], a)
\* barycentric coordinates of the point x as jets along axis k (k = 0: no axis)
Bary(x, k) == [i \in 1..(Len(x) + 1) |->
                 IF i = 1 THEN <<Sub(One, SumSeq(x)), IF k = 0 THEN Zero ELSE N(-1), Zero>>
                 ELSE <<x[i - 1], IF k = i - 1 THEN One ELSE Zero, Zero>>]
\* node alpha: multi-index over the vertices with sum n
Basis(n, alpha, x, k) == LET b == Bary(x, k) IN JProd([i \in 1..Len(b) |-> Lam(n, b[i], alpha[i])], Len(b))
Value(n, alpha, x) == Basis(n, alpha, x, 0)[1]
Gradient(n, alpha, x) == [k \in 1..Len(x) |-> Basis(n, alpha, x, k)[2]]
Gradient2(n, alpha, x) == [k \in 1..Len(x) |-> Basis(n, alpha, x, k)[3]]

\* the node layout (documented in sf/PolyShapeFunction.inl): vertices, then edge nodes walking along the edges, then inner nodes
Unit(K, n, i) == [j \in 1..(K + 1) |-> IF j = i THEN n ELSE 0]
OnEdge(K, n, i, j, step) == [v \in 1..(K + 1) |-> IF v = i THEN n - step ELSE IF v = j THEN step ELSE 0]
EdgeOrder(K) == CASE K = 1 -> <<<<1, 2>>>>
                  [] K = 2 -> <<<<1, 2>>, <<2, 3>>, <<3, 1>>>>
                  [] K = 3 -> <<<<1, 2>>, <<2, 3>>, <<3, 1>>, <<2, 4>>, <<4, 1>>, <<3, 4>>>>
RECURSIVE EdgeNodes(_, _, _)
EdgeNodes(K, n, m) == IF m = 0 THEN <<>>
                      ELSE EdgeNodes(K, n, m - 1) \o [s \in 1..(n - 1) |-> OnEdge(K, n, EdgeOrder(K)[m][1], EdgeOrder(K)[m][2], s)]
Nodes(K, n) == [i \in 1..(K + 1) |-> Unit(K, n, i)] \o (IF n = 1 THEN <<>> ELSE EdgeNodes(K, n, Len(EdgeOrder(K))))
               \o (IF K = 2 /\ n = 3 THEN <<<<1, 1, 1>>>> ELSE <<>>)
NodePoint(n, alpha) == [k \in 1..(Len(alpha) - 1) |-> Frac(alpha[k + 1], n)]
Offered == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>}

(* ---------------------------------------------- integrals over the unit simplex *)
RECURSIVE Fact(_)
Fact(n) == IF n <= 0 THEN 1 ELSE n * Fact(n - 1)
\* of x^a (K = 1) and x^a y^b (K = 2)
Integral(e) == IF Len(e) = 1 THEN Frac(1, e[1] + 1) ELSE Frac(Fact(e[1]) * Fact(e[2]), Fact(e[1] + e[2] + 2))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN One ELSE Mul(Pow(x, n - 1), x)

(* ---------------------------------------------- generalised cross product of K-1 vectors *)
Cross(V) == LET K == Len(V[1]) IN
    [i \in 1..K |-> LET M == [j \in 1..(K - 1) |-> [c \in 1..(K - 1) |-> V[j][IF c < i THEN c ELSE c + 1]]]
                        d == Det(TLCEval(M))
                    IN IF i % 2 = 1 THEN d ELSE Neg(d)]

(* ---------------------------------------------- natural numbers as digits of base 1000, least first, no leading zeros *)
B == 1000
RECURSIVE BCarry(_, _)
BCarry(s, c) == IF s = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o BCarry(<<>>, c \div B))
                ELSE LET v == s[1] + c IN <<v % B>> \o BCarry(Tail(s), v \div B)
BTrim(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE SubSeq(s, 1, Len(s) - 1)
BNat(n) == BCarry(<<>>, n)
BAdd(x, y) == LET n == IMax(Len(x), Len(y)) IN
    BCarry([i \in 1..n |-> (IF i <= Len(x) THEN x[i] ELSE 0) + (IF i <= Len(y) THEN y[i] ELSE 0)], 0)
BMulSmall(x, k) == IF k = 0 THEN <<>> ELSE BCarry([i \in 1..Len(x) |-> x[i] * k], 0)    \* k < 2 000 000
RECURSIVE BFact(_)
BFact(n) == IF n <= 1 THEN <<1>> ELSE BMulSmall(BFact(n - 1), n)
\* row n of Pascal's triangle, first k+1 entries: only additions
RECURSIVE Pascal(_, _)
Pascal(n, k) == IF n = 0 THEN [i \in 1..(k + 1) |-> IF i = 1 THEN <<1>> ELSE <<>>]
                ELSE LET p == Pascal(n - 1, k) IN TLCEval([i \in 1..(k + 1) |-> IF i = 1 THEN <<1>> ELSE BAdd(p[i - 1], p[i])])
\* n over k; by symmetry k <= n - k is used.  (For n beyond 200 the identity k C(n,k) = n C(n-1,k-1) is checked instead.)
RECURSIVE BDivSmall(_, _, _)
BDivSmall(x, k, r) == \* from the most significant digit: quotient digits, most significant first
    IF x = <<>> THEN <<>> ELSE LET v == r * B + x[Len(x)] IN <<v \div k>> \o BDivSmall(SubSeq(x, 1, Len(x) - 1), k, v % k)
BDiv(x, k) == LET q == Reverse(BDivSmall(x, k, 0)) IN
              LET RECURSIVE T(_) T(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE T(SubSeq(s, 1, Len(s) - 1)) IN T(q)
RECURSIVE BBinomRec(_, _)
BBinomRec(n, k) == IF k = 0 THEN <<1>> ELSE BDiv(BMulSmall(BBinomRec(n, k - 1), n - k + 1), k)
BBinom(n, k) == IF k > n THEN <<>> ELSE BBinomRec(n, IMin(k, n - k))
\* generalised binomial coefficient of a rational
RECURSIVE GBinom(_, _)
GBinom(x, k) == IF k = 0 THEN One ELSE Mul(GBinom(x, k - 1), Div(Sub(x, N(k - 1)), N(k)))
=============================================================================
