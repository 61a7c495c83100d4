------------------------------ MODULE FactBig ------------------------------
(* Factorisations, determinants, solutions and inverses of larger matrices   *)
(* (C09 - C12).  A matrix is a sequence of rows, a row the sequence of its   *)
(* non-zero entries <<j, v>> in order of j (from 0).  The operands come with *)
(* exact factors, which are checked and then settle what has to come out.    *)
EXTENDS LinAlg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sys
vars == <<l, sys>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1 /\ sys = 0
S == Trace[sys]
n == Len(S.a)
Reset == Is("reset") /\ sys' = 0
Keep == UNCHANGED sys

Null(m) == [j \in 0..(m - 1) |-> Zero]
\* rows as functions on the columns
Full(row, m) == FoldLeft(LAMBDA f, e : [f EXCEPT ![e[1]] = e[2]], Null(m), row)
\* row times matrix, m columns
RowMul(row, B, m) == FoldLeft(LAMBDA f, e : FoldLeft(LAMBDA h, q : [h EXCEPT ![q[1]] = Add(@, Mul(e[2], q[2]))], f, B[e[1] + 1]), Null(m), row)
UnitRow(i, m) == [j \in 0..(m - 1) |-> IF j = i - 1 THEN One ELSE Zero]
Fine(M, m) == Len(M) = m /\ \A i \in 1..m : \A k \in 1..Len(M[i]) : M[i][k][1] \in 0..(m - 1) /\ Finite(M[i][k][2]) /\ (k > 1 => M[i][k - 1][1] < M[i][k][1])
Low(M) == \A i \in 1..Len(M) : \A k \in 1..Len(M[i]) : M[i][k][1] <= i - 1
Upp(M) == \A i \in 1..Len(M) : \A k \in 1..Len(M[i]) : M[i][k][1] >= i - 1
UnitLow(M) == Low(M) /\ \A i \in 1..Len(M) : Len(M[i]) > 0 /\ Last(M[i]) = <<i - 1, One>>
\* whether a triangular matrix has its diagonal entry i
HasL(M, i) == Len(M[i]) > 0 /\ Last(M[i])[1] = i - 1
HasU(M, i) == Len(M[i]) > 0 /\ M[i][1][1] = i - 1
DiagU(M, i) == IF HasU(M, i) THEN M[i][1][2] ELSE Zero
IsPerm(p) == LET m == Len(p) c == FoldLeft(LAMBDA f, v : IF v \in 0..(m - 1) THEN [f EXCEPT ![v] = @ + 1] ELSE f, [j \in 0..(m - 1) |-> 0], p) IN \A j \in 0..(m - 1) : c[j] = 1
\* 0 or 1: transpositions modulo two
Parity(p) == FoldLeft(LAMBDA s, i : LET q == s.p IN IF q[i] = i - 1 THEN s ELSE LET k == CHOOSE k \in i..Len(q) : q[k] = i - 1 IN [p |-> [q EXCEPT ![i] = i - 1, ![k] = q[i]], n |-> 1 - s.n], [p |-> p, n |-> 0], [i \in 1..Len(p) |-> i]).n
\* A B = the identity
Inverts(A, B) == \A i \in 1..Len(A) : RowMul(A[i], B, Len(A)) = UnitRow(i, Len(A))

\* ---- a general matrix A with row p[i] of A = row i of L U
MatOk == LET E == Ev m == Len(E.a) IN
    /\ Fine(E.a, m) /\ Fine(E.l, m) /\ Fine(E.u, m) /\ UnitLow(E.l) /\ Upp(E.u) /\ Len(E.p) = m /\ IsPerm(E.p)
    /\ \A i \in 1..m : RowMul(E.l[i], E.u, m) = Full(E.a[E.p[i] + 1], m)
FMat == Is("fmat") /\ MatOk = TRUE /\ sys' = l
Regular == \A i \in 1..n : HasU(S.u, i)
LuOk == /\ Ev.same
        /\ Regular => Ev.exc = "ok"
        /\ \/ Ev.exc = "Singular" /\ ~ Regular
           \/ /\ Ev.exc = "ok" /\ Fine(Ev.l, n) /\ Fine(Ev.u, n) /\ Fine(Ev.p, n)
              /\ UnitLow(Ev.l) /\ Upp(Ev.u) /\ Ev.up
              /\ \A i \in 1..n : \A k \in 1..Len(Ev.l[i]) : Leq(NormSqr(Ev.l[i][k][2]), One)
              /\ \A i \in 1..n : Len(Ev.p[i]) = 1 /\ Ev.p[i][1][2] = One
              /\ LET p == TLCEval([i \in 1..n |-> Ev.p[i][1][1]]) IN
                    /\ IsPerm(p)
                    /\ \A i \in 1..n : RowMul(Ev.l[i], Ev.u, n) = Full(S.a[p[i] + 1], n)
                    /\ Ev.counted => Ev.n = Parity(p)
Lu == Is("lu") /\ LuOk = TRUE /\ Keep
DetOk == /\ Ev.same /\ Ev.exc = "ok"
         /\ LET d == FoldLeft(LAMBDA a, i : Mul(a, DiagU(S.u, i)), One, [i \in 1..n |-> i]) IN Ev.d = IF Parity(S.p) = 0 THEN d ELSE Neg(d)
DetE == Is("det") /\ DetOk = TRUE /\ Keep
InvOk == Ev.same /\ IF Regular THEN Ev.exc = "ok" /\ Fine(Ev.r, n) /\ Inverts(S.a, Ev.r) ELSE Ev.exc = "Singular"
InvE == Is("inv") /\ InvOk = TRUE /\ Keep
DotV(row, x) == FoldLeft(LAMBDA a, e : Add(a, Mul(e[2], x[e[1] + 1])), Zero, row)
SolveOk == LET E == Ev m == Len(E.b) IN
    /\ E.same /\ Fine(E.l, m) /\ Fine(E.u, m) /\ Low(E.l) /\ Upp(E.u)
    /\ IF \E i \in 1..m : ~ HasL(E.l, i) \/ ~ HasU(E.u, i) THEN E.exc = "Singular"
       ELSE /\ E.exc = "ok" /\ Len(E.x) = m /\ \A i \in 1..m : Finite(E.x[i])
            /\ LET y == TLCEval([i \in 1..m |-> DotV(E.u[i], E.x)]) IN \A i \in 1..m : DotV(E.l[i], y) = E.b[i]
Solve == Is("solve") /\ SolveOk = TRUE /\ Keep
\* ---- Hermitian A = L D L^H
ConjRow(row) == [k \in 1..Len(row) |-> <<row[k][1], Conj(row[k][2])>>]
\* the columns of a lower triangular matrix as rows of its adjoint
Adj(M) == FoldLeft(LAMBDA f, i : FoldLeft(LAMBDA h, e : [h EXCEPT ![e[1] + 1] = Append(@, <<i - 1, Conj(e[2])>>)], f, M[i]), [i \in 1..Len(M) |-> <<>>], [i \in 1..Len(M) |-> i])
SymOk == LET E == Ev m == Len(E.a) IN
    /\ Fine(E.a, m) /\ Fine(E.l, m) /\ UnitLow(E.l) /\ Len(E.d) = m /\ \A i \in 1..m : E.d[i][2] = 0
    /\ LET H == TLCEval(Adj(E.l)) IN \A i \in 1..m : RowMul([k \in 1..Len(E.l[i]) |-> <<E.l[i][k][1], Mul(E.l[i][k][2], E.d[E.l[i][k][1] + 1])>>], H, m) = Full(E.a[i], m)
FSym == Is("fsym") /\ SymOk = TRUE /\ sys' = l
CholOk == /\ Ev.same
          /\ IF \A i \in 1..n : S.d[i][1] > 0
             THEN /\ Ev.exc = "ok" /\ Fine(Ev.l, n) /\ Low(Ev.l) /\ Ev.low
                  /\ \A i \in 1..n : HasL(Ev.l, i) /\ Last(Ev.l[i])[2][1] > 0 /\ Last(Ev.l[i])[2][2] = 0
                  /\ LET H == TLCEval(Adj(Ev.l)) IN \A i \in 1..n : RowMul(Ev.l[i], H, n) = Full(S.a[i], n)
             ELSE Ev.exc = "NotPositiveDefinite"
Chol == Is("chol") /\ CholOk = TRUE /\ Keep
\* ---- A = L U on the stored positions of A
Pat(row) == {row[k][1] : k \in 1..Len(row)}
Factors(A, L, U) == LET m == Len(A) IN
    /\ Fine(L, m) /\ Fine(U, m) /\ UnitLow(L) /\ Upp(U)
    /\ \A i \in 1..m : (Pat(L[i]) \cup Pat(U[i])) \ {i - 1} \subseteq Pat(A[i]) /\ (i - 1 \in Pat(U[i]) => i - 1 \in Pat(A[i]))
    \* only the stored positions of the row count
    /\ \A i \in 1..m : LET P == Pat(A[i]) z == [j \in P |-> Zero] IN
         LET r == FoldLeft(LAMBDA f, e : FoldLeft(LAMBDA h, q : IF q[1] \in P THEN [h EXCEPT ![q[1]] = Add(@, Mul(e[2], q[2]))] ELSE h, f, U[e[1] + 1]), z, L[i])
         IN \A k \in 1..Len(A[i]) : r[A[i][k][1]] = A[i][k][2]
PatOk == LET E == Ev IN Fine(E.a, Len(E.a)) /\ Factors(E.a, E.l, E.u)
FPat == Is("fpat") /\ PatOk = TRUE /\ sys' = l
\* a pivot that is zero and has to be divided by
Blocked == \E i \in 1..n : \E j \in Pat(S.a[i]) : j < i - 1 /\ ~ HasU(S.u, j + 1)
IluOk == Ev.same /\ IF Blocked THEN Ev.exc = "Singular" ELSE Ev.exc = "ok" /\ Factors(S.a, Ev.l, Ev.u)
Ilu == Is("ilu") /\ IluOk = TRUE /\ Keep
\* ---- triangular L, U
TriOk == LET E == Ev m == Len(E.l) IN Fine(E.l, m) /\ Fine(E.u, m) /\ UnitLow(E.l) /\ Upp(E.u)
FTri == Is("ftri") /\ TriOk = TRUE /\ sys' = l
tn == Len(S.l)
TriReg == \A i \in 1..tn : HasU(S.u, i)
AinvOk == Ev.same /\ IF TriReg THEN Ev.exc = "ok" /\ Fine(Ev.il, tn) /\ Fine(Ev.iu, tn) /\ Inverts(S.l, Ev.il) /\ Inverts(S.u, Ev.iu) ELSE Ev.exc = "Singular"
Ainv == Is("ainv") /\ AinvOk = TRUE /\ Keep
\* U R = L^-1 P: checked as L (U R) = P, p empty: the identity
Sparse(f, m) == SelectSeq([j \in 1..m |-> <<j - 1, f[j - 1]>>], LAMBDA e : ~ IsZero(e[2]))
InvLuOk == /\ Ev.same
           /\ IF TriReg THEN /\ Ev.exc = "ok" /\ Fine(Ev.r, tn)
                             /\ LET W == TLCEval([i \in 1..tn |-> Sparse(RowMul(S.u[i], Ev.r, tn), tn)]) IN
                                \A i \in 1..tn : RowMul(S.l[i], W, tn) = UnitRow(IF Len(Ev.p) = 0 THEN i ELSE Ev.p[i] + 1, tn)
              ELSE Ev.exc = "Singular"
InvLu == Is("invlu") /\ InvLuOk = TRUE /\ Keep

Next == Reset \/ FMat \/ Lu \/ DetE \/ InvE \/ Solve \/ FSym \/ Chol \/ FPat \/ Ilu \/ FTri \/ Ainv \/ InvLu
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
