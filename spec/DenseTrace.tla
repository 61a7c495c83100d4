---------------------------- MODULE DenseTrace ----------------------------
(* Recorded calls on DenseMatrix / FixedMatrix objects as actions on the     *)
(* arrays in the registers `reg`.                                            *)
EXTENDS Sparse, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Nil == <<>>
Init == l = 1 /\ reg = [o \in 1..4 |-> Nil]
Put(o, M) == reg' = [reg EXCEPT ![o] = M]
Same == UNCHANGED reg

Reset == Is("reset") /\ reg' = [o \in 1..4 |-> Nil]
New == Is("new") /\ Put(Ev.o, ZeroMat(Ev.r, Ev.c))
InitList == Is("init") /\ Put(Ev.o, FromInit(Ev.rows))
Set == Is("set") /\ Put(Ev.o, DoSet(reg[Ev.o], Ev.i, Ev.j, Ev.v))
LSet == Is("lset") /\ Put(Ev.o, DoLinearSet(reg[Ev.o], Ev.k, Ev.v))
\* set(it, v) and erase(it) (v = 0) write the entry and return the same position
SetIt == Is("setit") /\ LET M == DoSet(reg[Ev.o], Ev.i, Ev.j, Ev.v) IN Put(Ev.o, M) /\ Ev.ret = EntryAt(M, Ev.i, Ev.j)
EndOp == Is("endop") /\ Ev.ret = <<>> /\ Same
Copy == Is("copy") /\ Put(Ev.d, reg[Ev.s])
Move == Is("move") /\ reg' = [reg EXCEPT ![Ev.d] = reg[Ev.s], ![Ev.s] = Nil]
Swap == Is("swap") /\ reg' = [reg EXCEPT ![Ev.a] = reg[Ev.b], ![Ev.b] = reg[Ev.a]]

IsEmptyM(M) == \A i \in 1..Rows(M) : \A j \in 1..Cols(M) : IsZero(M[i][j])
HasZeroM(M) == \E i \in 1..Rows(M) : \E j \in 1..Cols(M) : IsZero(M[i][j])
Obs == Is("obs") /\ LET M == reg[Ev.o] IN
            /\ M # Nil
            /\ Ev.r = Rows(M) /\ Ev.c = Cols(M) /\ Ev.size = Rows(M) * Cols(M)
            /\ Ev.at = M /\ Ev.lat = M /\ Ev.hasv = M
            /\ Ev.has = HasMat(M) /\ Ev.has2 = HasMat(M)
            /\ Ev.empty = IsEmptyM(M) /\ Ev.hz = HasZeroM(M)
            /\ Same
Peek == Is("peek") /\ LET M == reg[Ev.o] IN Ev.at = M /\ Ev.r = Rows(M) /\ Ev.c = Cols(M) /\ Same

\* a dense matrix visits every entry
AllRow(M, i) == [j \in 1..Cols(M) |-> <<i - 1, j - 1, M[i][j]>>]
AllCol(M, j) == [i \in 1..Rows(M) |-> <<i - 1, j - 1, M[i][j]>>]
RECURSIVE AllFrom(_, _)
AllFrom(M, i) == IF i > Rows(M) THEN <<>> ELSE AllRow(M, i) \o AllFrom(M, i + 1)
Iter == Is("iter") /\ LET M == reg[Ev.o] E == AllFrom(M, 1) IN
            /\ Ev.std = E /\ Ev.cstd = E /\ Ev.cbeg = E /\ Ev.post = E
            /\ Ev.rows = [i \in 1..Rows(M) |-> AllRow(M, i)] /\ Ev.crows = Ev.rows /\ Ev.cbrows = Ev.rows
            /\ Ev.cols = [j \in 1..Cols(M) |-> AllCol(M, j)] /\ Ev.ccols = Ev.cols /\ Ev.cbcols = Ev.cols
            /\ Same

Bin(k, A, B) == CASE k = "add" -> MAdd(A, B) [] k = "sub" -> MSub(A, B) [] k = "mul" -> MHad(A, B)
BinOp == Is("bin") /\ LET A == reg[Ev.a] B == reg[Ev.b] IN
            IF SameShape(A, B) THEN Ev.exc = "ok" /\ Put(Ev.d, Bin(Ev.k, A, B))
            ELSE Ev.exc = "MatrixSizeMismatch" /\ Same
Scale == Is("scale") /\ Put(Ev.d, MScale(reg[Ev.a], Ev.v))
NegOp == Is("neg") /\ Put(Ev.d, MNeg(reg[Ev.a]))
Cmp == Is("cmp") /\ LET A == reg[Ev.a] B == reg[Ev.b] IN
            /\ IF SameShape(A, B) THEN Ev.exc = "ok" /\ Ev.exc2 = "ok" /\ Ev.eq = (A = B) /\ Ev.ne = (A # B)
               ELSE Ev.exc = "MatrixSizeMismatch" /\ Ev.exc2 = "MatrixSizeMismatch"
            /\ Same

Next == \/ Reset \/ New \/ InitList \/ Set \/ LSet \/ SetIt \/ EndOp \/ Copy \/ Move \/ Swap
        \/ Obs \/ Peek \/ Iter \/ BinOp \/ Scale \/ NegOp \/ Cmp
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
