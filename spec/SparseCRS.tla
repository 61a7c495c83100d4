----------------------------- MODULE SparseCRS -----------------------------
(* The compressed-row bookkeeping, one action per public mutator, structured *)
(* like the code: values, column indices, row offsets (without an end        *)
(* sentinel).  `m` is the abstract matrix, updated by the abstract action.   *)
(* Checked exhaustively: the representation always stands for m, stays       *)
(* well formed, and the iterator erase() returns denotes the next entry.     *)
EXTENDS Sparse, TLC, Json, CSV, IOUtils

CONSTANTS R, C, Vals,       \* shape, non-zero values written
          FirstMatch,       \* TRUE: the erase() of the original revision (row search stops at the first match)
          Emit              \* TRUE: write every transition to the file named by EMIT

VARIABLES vals, cols, rowp, \* the representation
          m,                \* the abstract matrix
          ret               \* what the last iterator operation returned
vars == <<vals, cols, rowp, m, ret>>

NNZ == Len(vals)
RowEnd(i) == IF i < R THEN rowp[i + 1] ELSE Len(cols)       \* exclusive, rowp counts from 0
RowSize(i) == RowEnd(i) - rowp[i]

PutAt(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))   \* before position k (0-based)
CutAt(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k + 2, Len(s))

\* internal_at(i, j, needNear): position and whether the entry exists
RECURSIVE NearRow(_)
NearRow(i) == IF RowSize(i) = 0 /\ i < R THEN NearRow(i + 1) ELSE i
Scan(i, j) == LET cand == {k \in rowp[i]..(RowEnd(i) - 1) : cols[k + 1] >= j}
              IN IF cand = {} THEN RowEnd(i) ELSE CHOOSE k \in cand : \A q \in cand : k <= q
Locate(i, j) == IF NNZ = 0 THEN [pos |-> 0, found |-> FALSE]
                ELSE LET ii == NearRow(i) IN
                     IF ii = i THEN LET k == Scan(i, j) IN
                                    [pos |-> k, found |-> k < RowEnd(i) /\ cols[k + 1] = j]
                     ELSE [pos |-> rowp[ii], found |-> FALSE]

Shift(i, by) == [k \in 1..R |-> IF k > i THEN rowp[k] + by ELSE rowp[k]]

Log(rec) == Emit => CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.EMIT)

SetNonZero(i, j, v) ==
    LET at == Locate(i, j) IN
    /\ IF at.found THEN /\ vals' = [vals EXCEPT ![at.pos + 1] = v]
                        /\ UNCHANGED <<cols, rowp>>
       ELSE /\ vals' = PutAt(vals, at.pos, v)
            /\ cols' = PutAt(cols, at.pos, j)
            /\ rowp' = Shift(i, 1)
    /\ m' = MSet(m, i, j, v)
    /\ ret' = <<>>
    /\ Log(<<"set", R, C, i - 1, j - 1, v, m>>)

SetZero(i, j) ==
    LET at == Locate(i, j) IN
    /\ IF at.found THEN /\ vals' = CutAt(vals, at.pos)
                        /\ cols' = CutAt(cols, at.pos)
                        /\ rowp' = Shift(i, -1)
       ELSE UNCHANGED <<vals, cols, rowp>>
    /\ m' = MSet(m, i, j, Zero)
    /\ ret' = <<>>
    /\ Log(<<"set", R, C, i - 1, j - 1, Zero, m>>)

\* erase(it), it at (i, j) with position k
Erase(i, j) ==
    LET at == Locate(i, j) IN
    /\ Has(m, i, j)
    /\ at.found
    /\ LET k == at.pos
           cs == CutAt(cols, k)
           rp == Shift(i, -1)
           hit == {s \in i..R : rp[s] = k /\ \A t \in i..s : rp[t] <= k}
           row == IF hit = {} THEN i
                  ELSE IF FirstMatch THEN CHOOSE s \in hit : \A t \in hit : s <= t
                  ELSE CHOOSE s \in hit : \A t \in hit : s >= t
           vs == CutAt(vals, k)
       IN /\ vals' = vs /\ cols' = cs /\ rowp' = rp
          /\ ret' = IF k >= Len(cs) THEN <<"end">> ELSE <<"at", <<row - 1, cs[k + 1] - 1, vs[k + 1]>>, i - 1, j - 1>>
    /\ m' = MSet(m, i, j, Zero)
    /\ Log(<<"erase", R, C, i - 1, j - 1, Zero, m>>)

Init == /\ vals = <<>> /\ cols = <<>> /\ rowp = [i \in 1..R |-> 0]
        /\ m = ZeroMat(R, C) /\ ret = <<>>
Next == \E i \in 1..R, j \in 1..C :
            \/ \E v \in Vals : SetNonZero(i, j, N(v))
            \/ SetZero(i, j)
            \/ Erase(i, j)
Spec == Init /\ [][Next]_vars

NoRet == <<vals, cols, rowp>>      \* view for command generation
AbsOf == [i \in 1..R |-> [j \in 1..C |->
             LET ks == {k \in rowp[i]..(RowEnd(i) - 1) : cols[k + 1] = j}
             IN IF ks = {} THEN Zero ELSE vals[(CHOOSE k \in ks : TRUE) + 1]]]
Refines == AbsOf = m
WellFormed ==
    /\ Len(vals) = Len(cols)
    /\ rowp[1] = 0
    /\ \A i \in 1..R : rowp[i] <= RowEnd(i)
    /\ \A i \in 1..R : \A k \in (rowp[i] + 1)..(RowEnd(i) - 1) : cols[k] < cols[k + 1]
    /\ \A k \in 1..Len(vals) : ~ IsZero(vals[k])
Counted == Filled(m) = Len(vals) /\ \A i \in 1..R : RowCount(m, i) = RowSize(i)
EraseReturnsNext ==
    Len(ret) > 0 => IF ret[1] = "end" THEN TRUE
                    ELSE NextEntry(m, ret[3], ret[4]) = ret[2]
\* the end is returned only if nothing follows: checked on the action, where the erased position is known
EndOnlyAtEnd == [][ \A i \in 1..R, j \in 1..C :
                      (Has(m, i, j) /\ m' = MSet(m, i, j, Zero) /\ Len(ret') > 0 /\ ret'[1] = "end")
                      => NextEntry(m', i - 1, j - 1) = <<>> ]_vars
=============================================================================
