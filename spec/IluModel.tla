------------------------------ MODULE IluModel ------------------------------
(* Incomplete factorisation on the pattern, one action per stored entry left *)
(* of the diagonal, for every matrix of order n over Vals; and the columns   *)
(* of the triangular inverses, one action per row (bottom to top for U).     *)
EXTENDS LU
CONSTANTS n, Vals, Off
VARIABLES A, M, i, k, ph, IL, IU
vars == <<A, M, i, k, ph, IL, IU>>
Ix == 1..n
S == PatternOf(A)
Init == /\ A \in [Ix -> [Ix -> {N(v - Off) : v \in Vals}]]
        /\ M = A /\ i = 2 /\ k = 1 /\ ph = "ilu" /\ IL = ZeroMat(n, n) /\ IU = ZeroMat(n, n)
Advance == IF k + 1 < i THEN k' = k + 1 /\ i' = i /\ ph' = ph
           ELSE IF i < n THEN i' = i + 1 /\ k' = 1 /\ ph' = ph
           ELSE i' = 1 /\ k' = 1 /\ ph' = "inv"
Elim == /\ ph = "ilu"
        /\ IF <<i, k>> \notin S THEN Advance /\ UNCHANGED M
           ELSE IF IsZero(M[k][k]) THEN ph' = "singular" /\ UNCHANGED <<M, i, k>>
           ELSE LET d == Div(M[i][k], M[k][k])
                IN /\ M' = [M EXCEPT ![i] = TLCEval([j \in Ix |-> IF j < k THEN M[i][j] ELSE IF j = k THEN d
                                 ELSE IF <<i, j>> \in S THEN Sub(M[i][j], Mul(d, M[k][j])) ELSE M[i][j]])]
                   /\ Advance
        /\ UNCHANGED <<A, IL, IU>>
\* row i of the inverse of L downwards, row n + 1 - i of the inverse of U upwards
RECURSIVE Comb(_, _, _, _, _)
Comb(acc, row, X, q, to) == IF q > to THEN acc ELSE Comb([c \in Ix |-> Sub(acc[c], Mul(row[q], X[q][c]))], row, X, q + 1, to)
E(r) == [c \in Ix |-> IF c = r THEN One ELSE Zero]
Invert == /\ ph = "inv"
          /\ LET r == n + 1 - i L == IluL(M) U == IluU(M) IN
             IF IsZero(U[r][r]) THEN ph' = "singular2" /\ UNCHANGED <<IL, IU, i>>
             ELSE /\ IL' = [IL EXCEPT ![i] = TLCEval(Comb(E(i), L[i], IL, 1, i - 1))]
                  /\ IU' = [IU EXCEPT ![r] = TLCEval([c \in Ix |-> Div(Comb(E(r), U[r], IU, r + 1, n)[c], U[r][r])])]
                  /\ IF i = n THEN ph' = "end" /\ UNCHANGED i ELSE i' = i + 1 /\ UNCHANGED ph
          /\ UNCHANGED <<A, M, k>>
Next == Elim \/ Invert
Spec == Init /\ [][Next]_vars
OnPattern == ph = "inv" /\ i = 1 => LET p == MMul(IluL(M), IluU(M)) IN \A q \in S : p[q[1]][q[2]] = A[q[1]][q[2]]
InPattern == \A r \in Ix : \A c \in Ix : <<r, c>> \notin S => IsZero(M[r][c])
Operator == ph = "inv" /\ i = 1 => Ilu0(A) = [ok |-> TRUE, m |-> M]
Operator0 == ph = "singular" => ~ Ilu0(A).ok
Full == ph = "inv" /\ i = 1 /\ S = Ix \X Ix => MMul(IluL(M), IluU(M)) = A
Inverses == ph = "end" => /\ MMul(IluL(M), IL) = Eye(n, n) /\ MMul(IL, IluL(M)) = Eye(n, n)
                          /\ MMul(IluU(M), IU) = Eye(n, n) /\ MMul(IU, IluU(M)) = Eye(n, n)
Singular2 == ph = "singular2" => \E r \in Ix : IsZero(M[r][r])
=============================================================================
