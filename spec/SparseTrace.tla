---------------------------- MODULE SparseTrace ----------------------------
(* Every recorded call on SparseMatrix objects is an action on the abstract  *)
(* matrices in the registers `reg`.                                          *)
EXTENDS Sparse, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1

Nil == <<>>
Init == l = 1 /\ reg = [o \in 1..4 |-> Nil]
Put(o, M) == reg' = [reg EXCEPT ![o] = M]
Same == UNCHANGED reg

Reset == Is("reset") /\ reg' = [o \in 1..4 |-> Nil]
New == Is("new") /\ Put(Ev.o, ZeroMat(Ev.r, Ev.c))
InitList == Is("init") /\ Put(Ev.o, FromInit(Ev.rows))
Set == Is("set") /\ Put(Ev.o, DoSet(reg[Ev.o], Ev.i, Ev.j, Ev.v))
LSet == Is("lset") /\ Put(Ev.o, DoLinearSet(reg[Ev.o], Ev.k, Ev.v))
\* *it = v, or *it *= f, through an iterator designating (i, j)
ItWrite == Is("itw") /\ Has(reg[Ev.o], Ev.i + 1, Ev.j + 1) /\ Put(Ev.o, DoSet(reg[Ev.o], Ev.i, Ev.j, Ev.v))
SetIt == Is("setit") /\ LET M == DoSet(reg[Ev.o], Ev.i, Ev.j, Ev.v) IN
            /\ Put(Ev.o, M)
            /\ Ev.ret = IF IsZero(Ev.v) THEN NextEntry(M, Ev.i, Ev.j) ELSE EntryAt(M, Ev.i, Ev.j)
Erase == Is("erase") /\ LET M == DoErase(reg[Ev.o], Ev.i, Ev.j) IN
            Put(Ev.o, M) /\ Ev.ret = NextEntry(M, Ev.i, Ev.j)
\* set / erase at the end iterator change nothing and return the end
EndOp == Is("endop") /\ Ev.ret = <<>> /\ Same
Copy == Is("copy") /\ Put(Ev.d, reg[Ev.s])
Move == Is("move") /\ reg' = [reg EXCEPT ![Ev.d] = reg[Ev.s], ![Ev.s] = Nil]
Swap == Is("swap") /\ reg' = [reg EXCEPT ![Ev.a] = reg[Ev.b], ![Ev.b] = reg[Ev.a]]

\* a sweep `for (it = begin(); it != end(); ) keep / erase / overwrite`: visits list <<i, j, v, decision, new value>>
RECURSIVE Sweep(_, _, _)
Sweep(M, vis, k) ==
    IF k > Len(vis) THEN M
    ELSE LET x == vis[k]
             N2 == IF x[4] = 0 THEN M ELSE IF x[4] \in {1, 2} THEN DoErase(M, x[1], x[2]) ELSE DoSet(M, x[1], x[2], x[5])
         IN Sweep(N2, vis, k + 1)
SweepEv == Is("sweep") /\ LET M == reg[Ev.o] IN
            /\ [k \in 1..Len(Ev.vis) |-> <<Ev.vis[k][1], Ev.vis[k][2], Ev.vis[k][3]>>] = Entries(M)
            /\ Put(Ev.o, Sweep(M, Ev.vis, 1))

Obs == Is("obs") /\ LET M == reg[Ev.o] IN
            /\ M # Nil
            /\ Ev.r = Rows(M) /\ Ev.c = Cols(M) /\ Ev.size = Rows(M) * Cols(M)
            /\ Ev.at = M /\ Ev.lat = M /\ Ev.hasv = M
            /\ Ev.has = HasMat(M) /\ Ev.has2 = HasMat(M)
            /\ Ev.fc = Filled(M)
            /\ Ev.rfc = [i \in 1..Rows(M) |-> RowCount(M, i)]
            /\ Ev.cfc = [j \in 1..Cols(M) |-> ColCount(M, j)]
            /\ Ev.empty = (Filled(M) = 0)
            /\ Ev.hz = (Filled(M) # Rows(M) * Cols(M))
            /\ Same
\* brief observation: content and number of stored entries
Peek == Is("peek") /\ LET M == reg[Ev.o] IN Ev.at = M /\ Ev.fc = Filled(M) /\ Ev.r = Rows(M) /\ Ev.c = Cols(M) /\ Same
\* every way to iterate
Iter == Is("iter") /\ LET M == reg[Ev.o] E == Entries(M) IN
            /\ Ev.std = E /\ Ev.cstd = E /\ Ev.cbeg = E /\ Ev.post = E
            /\ Ev.rows = [i \in 1..Rows(M) |-> RowEntries(M, i)]
            /\ Ev.crows = Ev.rows /\ Ev.cbrows = Ev.rows
            /\ Ev.cols = [j \in 1..Cols(M) |-> ColEntries(M, j)]
            /\ Ev.ccols = Ev.cols /\ Ev.cbcols = Ev.cols
            /\ Same

\* element-wise algebra
Bin(k, A, B) == CASE k = "add" -> MAdd(A, B) [] k = "sub" -> MSub(A, B) [] k = "mul" -> MHad(A, B)
BinOp == Is("bin") /\ LET A == reg[Ev.a] B == reg[Ev.b] IN     \* d := a k b  (d = a for the compound forms)
            IF SameShape(A, B) THEN Ev.exc = "ok" /\ Put(Ev.d, Bin(Ev.k, A, B))
            ELSE Ev.exc = "MatrixSizeMismatch" /\ Same
Scale == Is("scale") /\ Put(Ev.d, MScale(reg[Ev.a], Ev.v))
NegOp == Is("neg") /\ Put(Ev.d, MNeg(reg[Ev.a]))
MapOp == Is("map") /\ LET M == reg[Ev.a] IN
            Put(Ev.d, CASE Ev.k = "transpose" -> MTrans(M) [] Ev.k = "conjugate" -> MConj(M) [] Ev.k = "adjugate" -> MAdj(M))
Cmp == Is("cmp") /\ Ev.eq = (reg[Ev.a] = reg[Ev.b]) /\ Ev.ne = (reg[Ev.a] # reg[Ev.b]) /\ Same

Next == \/ Reset \/ New \/ InitList \/ Set \/ LSet \/ ItWrite \/ SetIt \/ Erase \/ EndOp \/ Copy \/ Move \/ Swap
        \/ SweepEv \/ Obs \/ Peek \/ Iter \/ BinOp \/ Scale \/ NegOp \/ MapOp \/ Cmp
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
