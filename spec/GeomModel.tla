------------------------------ MODULE GeomModel ------------------------------
(* The definitions of Geom satisfy what they are used for: for every offered *)
(* pair the basis is nodal, sums to one and reproduces every monomial up to  *)
(* its order with all derivatives; binomials by quotient equal Pascal's; the *)
(* cross product is orthogonal; gradients of a triangle are dual to edges.   *)
EXTENDS Geom
CONSTANTS Steps, Side
VARIABLES kind, a, b
vars == <<kind, a, b>>
Grid(K) == [1..K -> {Frac(i, Steps) : i \in (0 - 1)..(Steps + 1)}]
Pt == {<<N(x), N(y)>> : x \in 0..Side, y \in 0..Side}
Init == kind = "start" /\ a \in 1..16 /\ b = <<>>
Next == kind = "start" /\
        \/ kind' = "basis" /\ a' \in {o \in Offered : a % 8 = o[1]} /\ b' \in {g \in Grid(a'[1]) : g[1][1] % 2 = a \div 8}
        \/ kind' = "tri" /\ a' \in {<<p, q, r>> : p \in Pt, q \in Pt, r \in {N(0), N(a), N(a + 1)} \X {N(i) : i \in 0..Side}} /\ b' = <<>>
        \/ kind' = "binom" /\ a' \in {a, a + 15} /\ b' \in 0..30
        \/ kind' = "cross" /\ a = 1 /\ a' \in [1..2 -> [1..3 -> {N(i) : i \in {-1, 0, 2}}]] /\ b' = <<>>
Spec == Init /\ [][Next]_vars
Exps(K, n) == {e \in [1..K -> 0..n] : LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + e[i] IN S(K) <= n}
Mono(e, x) == ProdSeq([k \in 1..Len(e) |-> Pow(x[k], e[k])])
Sum(f, n) == SumSeq([i \in 1..n |-> f[i]])
BasisOk == kind = "basis" =>
    LET K == a[1] n == a[2] nd == Nodes(K, n) x == b IN
    /\ Len(nd) = Fact(K + n) \div (Fact(K) * Fact(n))
    /\ \A i \in 1..Len(nd) : \A j \in 1..Len(nd) : Value(n, nd[i], NodePoint(n, nd[j])) = IF i = j THEN One ELSE Zero
    /\ \A e \in Exps(K, n) :
        LET c == [j \in 1..Len(nd) |-> Mono(e, NodePoint(n, nd[j]))] IN
        /\ Sum([j \in 1..Len(nd) |-> Mul(c[j], Value(n, nd[j], x))], Len(nd)) = Mono(e, x)
        /\ \A k \in 1..K : Sum([j \in 1..Len(nd) |-> Mul(c[j], Gradient(n, nd[j], x)[k])], Len(nd))
                = IF e[k] = 0 THEN Zero ELSE Mul(N(e[k]), Mono([e EXCEPT ![k] = @ - 1], x))
        /\ \A k \in 1..K : Sum([j \in 1..Len(nd) |-> Mul(c[j], Gradient2(n, nd[j], x)[k])], Len(nd))
                = IF e[k] < 2 THEN Zero ELSE Mul(N(e[k] * (e[k] - 1)), Mono([e EXCEPT ![k] = @ - 2], x))
TriOk == kind = "tri" => LET D == TriDet(a) IN
    /\ \A i \in 1..3 : \A j \in 1..3 : i # j => Dot(GradD(a, i), Edge(a, j, i)) = D
    /\ \A i \in 1..3 : Dot(GradD(a, i), Edge(a, Next3(i), Next3(Next3(i)))) = Zero
BinomOk == kind = "binom" => BBinom(a, b) = Pascal(a, b)[b + 1]
CrossOk == kind = "cross" => \A j \in 1..2 : Dot(Cross(a), a[j]) = Zero
=============================================================================
