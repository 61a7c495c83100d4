------------------------------- MODULE LinAlg -------------------------------
(* Vectors are sequences of numbers, matrices are sequences of rows.         *)
(* Indices inside the specification start at 1; logged indices start at 0.   *)
EXTENDS Num, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
SameShape(A, B) == Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
IsSquare(A) == Rows(A) = Cols(A)
IsMat(M) == \A i \in 1..Len(M) : Len(M[i]) = Cols(M)
AllFinite(M) == \A i \in 1..Rows(M) : \A j \in 1..Cols(M) : Finite(M[i][j])

Mk(r, c, f(_, _)) == [i \in 1..r |-> [j \in 1..c |-> f(i, j)]]
ZeroMat(r, c) == [i \in 1..r |-> [j \in 1..c |-> Zero]]
Eye(r, c) == [i \in 1..r |-> [j \in 1..c |-> IF i = j THEN One ELSE Zero]]
DiagM(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE Zero]]

MSet(M, i, j, v) == [M EXCEPT ![i][j] = v]
MMap(M, f(_)) == [i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> f(M[i][j])]]
MZip(A, B, f(_, _)) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> f(A[i][j], B[i][j])]]
MAdd(A, B) == MZip(A, B, Add)
MSub(A, B) == MZip(A, B, Sub)
MHad(A, B) == MZip(A, B, Mul)
MDivE(A, B) == MZip(A, B, Div)
MNeg(A) == MMap(A, Neg)
MScale(A, s) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> Mul(A[i][j], s)]]
MConj(A) == MMap(A, Conj)
MTrans(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
MAdj(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> Conj(A[i][j])]]
MTrace(A) == SumTo([i \in 1..IMin(Rows(A), Cols(A)) |-> A[i][i]], IMin(Rows(A), Cols(A)))

VAdd(a, b) == [i \in 1..Len(a) |-> Add(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> Sub(a[i], b[i])]
VMul(a, b) == [i \in 1..Len(a) |-> Mul(a[i], b[i])]
VDiv(a, b) == [i \in 1..Len(a) |-> Div(a[i], b[i])]
VScale(a, s) == [i \in 1..Len(a) |-> Mul(a[i], s)]
VMap(a, f(_)) == [i \in 1..Len(a) |-> f(a[i])]
\* bilinear product (no conjugation), as the library defines dot()
Dot(a, b) == SumTo([i \in 1..Len(a) |-> Mul(a[i], b[i])], Len(a))

MMul(A, B) == LET BT == TLCEval(MTrans(B)) IN TLCEval([i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> Dot(A[i], BT[j])]])
MVec(A, v) == [i \in 1..Rows(A) |-> Dot(A[i], v)]
VecM(v, A) == [j \in 1..Cols(A) |-> SumTo([i \in 1..Rows(A) |-> Mul(v[i], A[i][j])], Rows(A))]

IsLower(A) == \A i \in 1..Rows(A) : \A j \in (i+1)..Cols(A) : IsZero(A[i][j])
IsUpper(A) == \A i \in 1..Rows(A) : \A j \in 1..IMin(i-1, Cols(A)) : IsZero(A[i][j])
UnitDiag(A) == \A i \in 1..IMin(Rows(A), Cols(A)) : A[i][i] = One

\* determinant: DetOf(A, k) maps every set of k columns to the minor of these columns and the last k rows
RankIn(S, c) == Cardinality({x \in S : x < c})
RECURSIVE DetOf(_, _)
DetOf(A, k) == IF k = 0 THEN [S \in {{}} |-> One]
               ELSE LET f == DetOf(A, k - 1) r == A[Rows(A) - k + 1]
                    IN TLCEval([S \in kSubset(k, 1..Cols(A)) |->
                           LET cs == SetToSeq({c \in S : ~ IsZero(r[c])})
                           IN SumSeq([i \in 1..Len(cs) |->
                                  LET t == Mul(r[cs[i]], f[S \ {cs[i]}]) IN IF RankIn(S, cs[i]) % 2 = 0 THEN t ELSE Neg(t)])])
Det(A) == DetOf(A, Rows(A))[1..Rows(A)]
\* leading principal minors
Leading(A, k) == [i \in 1..k |-> [j \in 1..k |-> A[i][j]]]

\* permutation matrices and their sign
IsPerm01(P) == /\ IsSquare(P)
               /\ \A i \in 1..Rows(P) : \A j \in 1..Rows(P) : P[i][j] \in {Zero, One}
               /\ \A i \in 1..Rows(P) : Cardinality({j \in 1..Rows(P) : P[i][j] = One}) = 1
               /\ \A j \in 1..Rows(P) : Cardinality({i \in 1..Rows(P) : P[i][j] = One}) = 1
PermOf(P) == [i \in 1..Rows(P) |-> CHOOSE j \in 1..Rows(P) : P[i][j] = One]
Inversions(p) == Cardinality({t \in (1..Len(p)) \X (1..Len(p)) : t[1] < t[2] /\ p[t[1]] > p[t[2]]})

\* solution of a square regular system by Cramer's rule (small orders only)
ReplaceCol(A, c, b) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> IF j = c THEN b[i] ELSE A[i][j]]]
=============================================================================
