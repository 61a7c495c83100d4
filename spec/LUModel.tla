------------------------------ MODULE LUModel ------------------------------
(* Factorisation with partial pivoting and the solution of A X = I by the    *)
(* factors, one action per elimination or substitution step, structured like *)
(* the code (with any of the largest candidates as pivot).  Checked for      *)
(* every matrix of order n over Vals; invariants hold in every state.        *)
EXTENDS LU, Json, CSV, IOUtils
CONSTANTS n, Vals, Off, Emit      \* entries: the values v - Off
VARIABLES A, L, U, p, cnt,      \* p: row of A at each position; cnt: number of exchanges
          k, ph, X              \* step, phase, the inverse (as rows)
vars == <<A, L, U, p, cnt, k, ph, X>>
Ix == 1..n
Log(rec) == Emit => CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.EMIT)

Init == /\ A \in [Ix -> [Ix -> {v - Off : v \in Vals}]]
        /\ U = [i \in Ix |-> [j \in Ix |-> N(A[i][j])]]
        /\ L = Eye(n, n) /\ p = [i \in Ix |-> i] /\ cnt = 0 /\ k = 1 /\ ph = "lu" /\ X = ZeroMat(n, n)
AM == [i \in Ix |-> [j \in Ix |-> N(A[i][j])]]

SwapRows(M, i, j, cs) == [r \in Ix |-> [c \in Ix |-> IF c \in cs THEN M[IF r = i THEN j ELSE IF r = j THEN i ELSE r][c] ELSE M[r][c]]]
Eliminate(i) ==
    LET U1 == TLCEval(SwapRows(U, k, i, k..n))
        L1 == TLCEval(SwapRows(L, k, i, 1..(k - 1)))
        L2 == TLCEval([r \in Ix |-> [c \in Ix |-> IF c = k /\ r > k THEN Div(U1[r][k], U1[k][k]) ELSE L1[r][c]]])
        U2 == TLCEval([r \in Ix |-> [c \in Ix |-> IF r > k /\ c >= k THEN (IF c = k THEN Zero ELSE Sub(U1[r][c], Mul(L2[r][k], U1[k][c]))) ELSE U1[r][c]]])
    IN /\ L' = L2 /\ U' = U2
Step == /\ ph = "lu" /\ k < n
        /\ \E i \in k..n :
             /\ \A j \in k..n : Leq(NAbs(U[j][k]), NAbs(U[i][k]))
             /\ p' = [p EXCEPT ![k] = p[i], ![i] = p[k]]
             /\ cnt' = IF i = k THEN cnt ELSE cnt + 1
             /\ IF IsZero(U[i][k]) THEN ph' = "singular" /\ UNCHANGED <<L, U, k>> /\ Log(<<"lu", A>>)
                ELSE Eliminate(i) /\ k' = k + 1 /\ UNCHANGED ph
        /\ UNCHANGED <<A, X>>
Done == /\ ph = "lu" /\ k = n
        /\ Log(<<"lu", A>>)
        /\ ph' = IF IsZero(U[n][n]) THEN "end0" ELSE "fwd"
        /\ X' = [i \in Ix |-> [j \in Ix |-> IF p[i] = j THEN One ELSE Zero]]     \* P
        /\ k' = 1 /\ UNCHANGED <<A, L, U, p, cnt>>
RowMinus(r, M, s, from, to) == [c \in Ix |-> LET RECURSIVE Go(_, _) Go(q, acc) == IF q > to THEN acc ELSE Go(q + 1, Sub(acc, Mul(s[q], M[q][c]))) IN Go(from, r[c])]
Fwd == /\ ph = "fwd"
       /\ X' = [X EXCEPT ![k] = TLCEval(RowMinus(X[k], X, L[k], 1, k - 1))]
       /\ IF k = n THEN ph' = "bwd" /\ k' = n ELSE k' = k + 1 /\ UNCHANGED ph
       /\ UNCHANGED <<A, L, U, p, cnt>>
Bwd == /\ ph = "bwd"
       /\ X' = [X EXCEPT ![k] = TLCEval([c \in Ix |-> Div(RowMinus(X[k], X, U[k], k + 1, n)[c], U[k][k])])]
       /\ IF k = 1 THEN ph' = "end" /\ k' = 1 ELSE k' = k - 1 /\ UNCHANGED ph
       /\ UNCHANGED <<A, L, U, p, cnt>>
Next == Step \/ Done \/ Fwd \/ Bwd
Spec == Init /\ [][Next]_vars

PA == [i \in Ix |-> AM[p[i]]]
Perm == [i \in Ix |-> [j \in Ix |-> IF p[i] = j THEN One ELSE Zero]]
Factorised == ph \in {"lu", "fwd"} => MMul(L, U) = PA                  \* also halfway
Bounded == \A i \in Ix : \A j \in Ix : Leq(NAbs(L[i][j]), One)
Shape == IsUnitLower(L) /\ (\A i \in Ix : \A j \in 1..IMin(i - 1, k - 1) : ph = "lu" => IsZero(U[i][j])) /\ (ph # "lu" /\ ph # "singular" => IsUpper(U))
Sign == cnt % 2 = Inversions(p) % 2
SingularOnly == ph \in {"singular", "end0"} => IsZero(Det(AM))
RegularElse == ph = "fwd" => ~ IsZero(Det(AM)) /\ Det(AM) = Mul(IF cnt % 2 = 0 THEN One ELSE N(-1), ProdSeq([i \in Ix |-> U[i][i]]))
Inverted == ph = "end" => MMul(AM, X) = Eye(n, n) /\ MMul(X, AM) = Eye(n, n)
FwdSolved == ph = "bwd" /\ k = n => MMul(L, X) = Perm
=============================================================================
