------------------------------- MODULE Loader -------------------------------
(* The text format of .node and .ele files.  A text is a sequence of lines,  *)
(* a line a sequence of fields [k |-> kind, v |-> value] (comments and blanks*)
(* removed): kind "i" a non-negative whole number, "m" a negative one, "f" a *)
(* number that is not whole, "x" anything else.                              *)
EXTENDS Num
UInt(f) == f.k = "i"
Whole(f) == f.k \in {"i", "m"}
RealF(f) == f.k \in {"i", "m", "f"}
NonBlank(T) == SelectSeq(T, LAMBDA L : L # <<>>)

\* count in the header, 0 if the header is missing or wrong
HeaderCount(T, second) ==
    IF T = <<>> THEN 0
    ELSE LET L == T[1] IN IF Len(L) >= 2 /\ UInt(L[1]) /\ Whole(L[2]) /\ L[2].v = N(second) THEN L[1].v[1] ELSE 0
Base(T) == IF T[2][1].v[1] = 0 THEN 0 ELSE 1
\* numbered lines follow the header
Numbered1(T, n, fields) ==
    /\ n > 0 /\ Len(T) = n + 1
    /\ \A k \in 1..n : Len(T[k + 1]) > fields /\ UInt(T[k + 1][1])
    /\ \A k \in 1..n : T[k + 1][1].v[1] = Base(T) + k - 1
NodeOk(T) == /\ Numbered1(T, HeaderCount(T, 2), 2)
             /\ \A k \in 2..Len(T) : RealF(T[k][2]) /\ RealF(T[k][3])
EleOk(T, nodes) == /\ Numbered1(T, HeaderCount(T, 3), 3)
                   /\ \A k \in 2..Len(T) : \A j \in 2..4 : UInt(T[k][j]) /\ T[k][j].v[1] - Base(T) \in 0..(nodes - 1)
Points(T) == [k \in 1..(Len(T) - 1) |-> <<T[k + 1][2].v, T[k + 1][3].v>>]
Triangles(T) == [k \in 1..(Len(T) - 1) |-> [j \in 1..3 |-> T[k + 1][j + 1].v[1] - Base(T)]]
=============================================================================
