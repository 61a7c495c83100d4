------------------------------- MODULE Sparse -------------------------------
(* Abstract sparse matrix: the ordinary matrix M it stands for.  An entry is *)
(* stored exactly when it is not zero.                                       *)
EXTENDS LinAlg

Has(M, i, j) == ~ IsZero(M[i][j])
HasMat(M) == [i \in 1..Rows(M) |-> [j \in 1..Cols(M) |-> Has(M, i, j)]]
RECURSIVE CountTo(_, _)
CountTo(f, n) == IF n = 0 THEN 0 ELSE CountTo(f, n - 1) + f[n]
RowCount(M, i) == Cardinality({j \in 1..Cols(M) : Has(M, i, j)})
ColCount(M, j) == Cardinality({i \in 1..Rows(M) : Has(M, i, j)})
Filled(M) == CountTo([i \in 1..Rows(M) |-> RowCount(M, i)], Rows(M))

\* <<row, column, value>> with indices from 0, as an iterator reports it
RowEntries(M, i) == SelectSeq([j \in 1..Cols(M) |-> <<i - 1, j - 1, M[i][j]>>], LAMBDA t : ~ IsZero(t[3]))
ColEntries(M, j) == SelectSeq([i \in 1..Rows(M) |-> <<i - 1, j - 1, M[i][j]>>], LAMBDA t : ~ IsZero(t[3]))
RECURSIVE EntriesFrom(_, _)
EntriesFrom(M, i) == IF i > Rows(M) THEN <<>> ELSE RowEntries(M, i) \o EntriesFrom(M, i + 1)
Entries(M) == EntriesFrom(M, 1)
\* what an iterator at (i, j), or the first one after it, denotes: <<>> is the end
After(a, b, i, j) == a > i \/ (a = i /\ b > j)
NextEntry(M, i, j) ==      \* i, j from 0
    LET s == SelectSeq(Entries(M), LAMBDA t : After(t[1], t[2], i, j))
    IN IF Len(s) = 0 THEN <<>> ELSE s[1]
EntryAt(M, i, j) == <<i, j, M[i + 1][j + 1]>>

\* actions on one matrix
DoSet(M, i, j, v) == MSet(M, i + 1, j + 1, v)
DoLinearSet(M, k, v) == MSet(M, (k \div Cols(M)) + 1, (k % Cols(M)) + 1, v)
DoErase(M, i, j) == MSet(M, i + 1, j + 1, Zero)
FromInit(rows) ==          \* initializer list, short rows are filled with zeros
    LET c == CHOOSE c \in {Len(rows[i]) : i \in 1..Len(rows)} : \A i \in 1..Len(rows) : Len(rows[i]) <= c
    IN [i \in 1..Len(rows) |-> [j \in 1..c |-> IF j <= Len(rows[i]) THEN rows[i][j] ELSE Zero]]
=============================================================================
