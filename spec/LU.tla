-------------------------------- MODULE LU --------------------------------
(* Triangular factorisations in exact arithmetic.                            *)
EXTENDS LinAlg

\* ---- what a pivoted factorisation has to satisfy
PALU(A, L, U, P) == MMul(P, A) = MMul(L, U)
IsUnitLower(L) == IsLower(L) /\ UnitDiag(L)
PermSign(P) == IF Inversions(PermOf(P)) % 2 = 0 THEN 0 ELSE 1
DiagNonZero(M) == \A i \in 1..Rows(M) : ~ IsZero(M[i][i])
Hermitian(A) == IsSquare(A) /\ MAdj(A) = A
\* Sylvester: sign of the leading minors of a Hermitian matrix
MinorSeq(A) == [k \in 1..Rows(A) |-> Det(Leading(A, k))]
PositiveDefinite(ms) == \A k \in 1..Len(ms) : ms[k][1] > 0
FirstBad(ms) == CHOOSE k \in 1..Len(ms) : ms[k][1] <= 0 /\ \A j \in 1..(k - 1) : ms[j][1] > 0

\* ---- incomplete LU on the pattern of A, row by row (the only factors with L U = A on the pattern)
PatternOf(A) == {p \in (1..Rows(A)) \X (1..Rows(A)) : ~ IsZero(A[p[1]][p[2]])}
\* row i, next column k: divide, then update the entries of the row right of k that are in the pattern
RECURSIVE IluRow(_, _, _, _)
IluRow(M, S, i, k) ==
    IF k >= i THEN [ok |-> TRUE, m |-> M]
    ELSE IF <<i, k>> \notin S THEN IluRow(M, S, i, k + 1)
    ELSE IF IsZero(M[k][k]) THEN [ok |-> FALSE, m |-> M]
    ELSE LET d == Div(M[i][k], M[k][k])
             M2 == [M EXCEPT ![i] = [j \in 1..Rows(M) |->
                       IF j < k \/ <<i, j>> \notin S THEN M[i][j]
                       ELSE IF j = k THEN d
                       ELSE IF <<k, j>> \in S THEN Sub(M[i][j], Mul(d, M[k][j])) ELSE M[i][j]]]
         IN IluRow(M2, S, i, k + 1)
RECURSIVE IluFrom(_, _, _)
IluFrom(M, S, i) == IF i > Rows(M) THEN [ok |-> TRUE, m |-> M]
                    ELSE LET r == IluRow(M, S, i, 1) IN IF r.ok THEN IluFrom(r.m, S, i + 1) ELSE r
Ilu0(A) == IluFrom(A, PatternOf(A), 2)
IluL(M) == [i \in 1..Rows(M) |-> [j \in 1..Rows(M) |-> IF i = j THEN One ELSE IF j < i THEN M[i][j] ELSE Zero]]
IluU(M) == [i \in 1..Rows(M) |-> [j \in 1..Rows(M) |-> IF j >= i THEN M[i][j] ELSE Zero]]
=============================================================================
