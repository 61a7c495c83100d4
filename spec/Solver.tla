------------------------------- MODULE Solver -------------------------------
(* Stationary iterations and Krylov characterisation of conjugate gradients. *)
EXTENDS LinAlg

\* one sweep: Jacobi reads only the old iterate, SOR the new one left of the diagonal
JacobiSweep(A, b, x) ==
    TLCEval([i \in 1..Len(x) |-> Div(Sub(b[i], SumSeq([j \in 1..Len(x) |-> IF j = i THEN Zero ELSE Mul(A[i][j], x[j])])), A[i][i])])
RECURSIVE SorFrom(_, _, _, _, _)
SorFrom(A, b, w, x, i) ==       \* x is new before i and old from i on
    IF i > Len(x) THEN x
    ELSE LET t == Div(Sub(b[i], SumSeq([j \in 1..Len(x) |-> IF j = i THEN Zero ELSE Mul(A[i][j], x[j])])), A[i][i])
         IN SorFrom(A, b, w, TLCEval([x EXCEPT ![i] = Add(Mul(Sub(One, w), x[i]), Mul(w, t))]), i + 1)
Sweep(A, b, w, x, sor) == IF sor THEN SorFrom(A, b, w, x, 1) ELSE JacobiSweep(A, b, x)
Dist2(x, y) == SumSeq([i \in 1..Len(x) |-> NormSqr(Sub(x[i], y[i]))])
RECURSIVE Iterate(_, _, _, _, _, _, _, _)
Iterate(A, b, w, x, sor, eps2, it, max) ==
    IF it >= max THEN [x |-> x, n |-> max]
    ELSE LET y == Sweep(A, b, w, x, sor)
         IN IF Leq(Dist2(x, y), eps2) THEN [x |-> y, n |-> it + 1] ELSE Iterate(A, b, w, y, sor, eps2, it + 1, max)
ZeroInDiag(A) == \E i \in 1..Rows(A) : IsZero(A[i][i])

\* ---- Krylov spaces
Resid(A, b, x) == VSub(b, MVec(A, x))
\* multiple of v without common factors, as a vector of integers
RECURSIVE LcmDen(_, _)
LcmDen(v, i) == IF i = 0 THEN 1 ELSE LET d == LcmDen(v, i - 1) IN (d \div IGcd(d, v[i][3])) * v[i][3]
RECURSIVE GcdNum(_, _)
GcdNum(v, i) == IF i = 0 THEN 0 ELSE IGcd(GcdNum(v, i - 1), v[i][1])
Prim(v) == LET d == LcmDen(v, Len(v))
               w == TLCEval([i \in 1..Len(v) |-> <<v[i][1] * (d \div v[i][3]), 0, 1>>])
               g == GcdNum(w, Len(w))
           IN IF g <= 1 THEN w ELSE [i \in 1..Len(v) |-> <<w[i][1] \div g, 0, 1>>]
IsNull(v) == \A i \in 1..Len(v) : IsZero(v[i])
\* the first k vectors C r, (C A) C r, ...
RECURSIVE KrylovSeq(_, _, _, _)
KrylovSeq(A, C, v, k) == IF k = 0 THEN <<>> ELSE <<Prim(v)>> \o KrylovSeq(A, C, TLCEval(MVec(C, MVec(A, Prim(v)))), k - 1)
\* w lies in the span of the vectors in V: eliminate with one pivot per vector
Pivot(v) == CHOOSE i \in 1..Len(v) : ~ IsZero(v[i]) /\ \A j \in 1..(i - 1) : IsZero(v[j])
Elim1(w, v) == IF IsNull(v) THEN w ELSE LET p == Pivot(v) IN TLCEval(Prim(VSub(VScale(w, v[p]), VScale(v, w[p]))))
RECURSIVE Reduce(_, _)
Reduce(w, V) == IF V = <<>> THEN w ELSE Reduce(Elim1(w, Head(V)), Tail(V))
RECURSIVE Echelon(_, _)
Echelon(V, acc) == IF V = <<>> THEN acc ELSE Echelon(Tail(V), Append(acc, Reduce(Head(V), acc)))
InSpan(w, V) == IsNull(Reduce(Prim(w), Echelon(V, <<>>)))
\* x is the minimiser of the energy norm of the error over x0 + span of the first k Krylov vectors (A, C SPD)
Galerkin(A, C, b, x0, x, k) ==
    LET V == TLCEval(KrylovSeq(A, C, MVec(C, Resid(A, b, x0)), k)) r == Resid(A, b, x)
    IN /\ \A i \in 1..Len(x) : Finite(x[i])
       /\ \A i \in 1..k : IsZero(Dot(r, V[i]))
       /\ InSpan(VSub(x, x0), V)
=============================================================================
