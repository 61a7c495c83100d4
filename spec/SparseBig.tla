----------------------------- MODULE SparseBig -----------------------------
(* Sparse matrices with many rows or columns.  The abstract matrix is the    *)
(* finite map of its non-zero entries: key "i,j" |-> <<i, j, value>>.        *)
(* Columns are counted from a base the driver picks (possibly above 2^32).   *)
EXTENDS LinAlg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1

Empty == [k \in {} |-> <<0, 0, Zero>>]
Nil == [r |-> -1, c |-> -1, f |-> Empty]
Init == l = 1 /\ reg = [o \in 1..4 |-> Nil]
Put(o, M) == reg' = [reg EXCEPT ![o] = M]
Same == UNCHANGED reg
Key(i, j) == ToString(i) \o "," \o ToString(j)
Drop0(f) == LET Z == {k \in DOMAIN f : IsZero(f[k][3])} IN IF Z = {} THEN f ELSE [k \in DOMAIN f \ Z |-> f[k]]
\* es: an object "i,j" |-> <<i, j, v>>
Write(f, es) == Drop0(es @@ f)
Write1(f, i, j, v) == IF IsZero(v) THEN [k \in DOMAIN f \ {Key(i, j)} |-> f[k]] ELSE (Key(i, j) :> <<i, j, v>>) @@ f
Val(f, i, j) == IF Key(i, j) \in DOMAIN f THEN f[Key(i, j)][3] ELSE Zero
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
\* S lists exactly the entries of f that satisfy P, in reading order
Lists(S, f, P(_)) ==
    /\ \A k \in 1..Len(S) : Key(S[k][1], S[k][2]) \in DOMAIN f /\ f[Key(S[k][1], S[k][2])] = S[k] /\ P(S[k])
    /\ \A k \in 2..Len(S) : Before(S[k - 1], S[k])
    /\ Len(S) = Cardinality({k \in DOMAIN f : P(f[k])})
AnyEntry(x) == TRUE
InRow(f, i) == Cardinality({k \in DOMAIN f : f[k][1] = i})
InCol(f, j) == Cardinality({k \in DOMAIN f : f[k][2] = j})
\* ret is the first entry after (i, j), or nothing if there is none
IsNext(ret, f, i, j) ==
    LET p == <<i, j>> IN
    IF ret = <<>> THEN \A k \in DOMAIN f : ~ Before(p, f[k])
    ELSE /\ Key(ret[1], ret[2]) \in DOMAIN f /\ f[Key(ret[1], ret[2])] = ret /\ Before(p, ret)
         /\ \A k \in DOMAIN f : ~ (Before(p, f[k]) /\ Before(f[k], ret))

Reset == Is("reset") /\ reg' = [o \in 1..4 |-> Nil]
New == Is("new") /\ Put(Ev.o, [r |-> Ev.r, c |-> Ev.c, f |-> Empty])
Fill == Is("fill") /\ Put(Ev.o, [reg[Ev.o] EXCEPT !.f = Write(@, Ev.es)])
Set == Is("set") /\ Put(Ev.o, [reg[Ev.o] EXCEPT !.f = Write1(@, Ev.i, Ev.j, Ev.v)])
SetIt == Is("setit") /\ LET f == Write1(reg[Ev.o].f, Ev.i, Ev.j, Ev.v) IN
            /\ Put(Ev.o, [reg[Ev.o] EXCEPT !.f = f])
            /\ IF IsZero(Ev.v) THEN IsNext(Ev.ret, f, Ev.i, Ev.j) ELSE Ev.ret = <<Ev.i, Ev.j, Ev.v>>
At == Is("at") /\ LET f == reg[Ev.o].f IN
            /\ \A k \in 1..Len(Ev.es) : LET x == Ev.es[k] v == Val(f, x[1], x[2]) IN x[3] = v /\ x[4] = v /\ x[5] = v /\ x[6] = ~ IsZero(v) /\ x[7] = ~ IsZero(v)
            /\ Same
Counts == Is("counts") /\ LET M == reg[Ev.o] IN
            /\ Ev.r = M.r /\ Ev.c = M.c
            /\ Ev.fc = Cardinality(DOMAIN M.f) /\ Ev.empty = (Ev.fc = 0)
            /\ \A k \in 1..Len(Ev.rows) : Ev.rows[k][2] = InRow(M.f, Ev.rows[k][1])
            /\ \A k \in 1..Len(Ev.cols) : Ev.cols[k][2] = InCol(M.f, Ev.cols[k][1])
            /\ Same
Iter == Is("iter") /\ Lists(Ev.s, reg[Ev.o].f, AnyEntry) /\ Ev.post = Ev.s /\ Same
RowIter == Is("row") /\ Lists(Ev.s, reg[Ev.o].f, LAMBDA x : (x[1] = Ev.i)) /\ Ev.post = Ev.s /\ Same
ColIter == Is("col") /\ Lists(Ev.s, reg[Ev.o].f, LAMBDA x : (x[2] = Ev.j)) /\ Ev.post = Ev.s /\ Same
RECURSIVE Sweep(_, _, _)
Sweep(f, vis, k) ==
    IF k > Len(vis) THEN f
    ELSE LET x == vis[k] IN Sweep(IF x[4] = 0 THEN f ELSE Write1(f, x[1], x[2], x[5]), vis, k + 1)
SweepEv == Is("sweep") /\ LET M == reg[Ev.o] IN
            /\ Lists([k \in 1..Len(Ev.vis) |-> <<Ev.vis[k][1], Ev.vis[k][2], Ev.vis[k][3]>>], M.f, AnyEntry)
            /\ Put(Ev.o, [M EXCEPT !.f = Sweep(M.f, Ev.vis, 1)])
Copy == Is("copy") /\ Put(Ev.d, reg[Ev.s])
Move == Is("move") /\ reg' = [reg EXCEPT ![Ev.d] = reg[Ev.s], ![Ev.s] = Nil]
Swap == Is("swap") /\ reg' = [reg EXCEPT ![Ev.a] = reg[Ev.b], ![Ev.b] = reg[Ev.a]]

Op(k, x, y) == CASE k = "add" -> Add(x, y) [] k = "sub" -> Sub(x, y) [] k = "mul" -> Mul(x, y)
V3(f, k) == IF k \in DOMAIN f THEN f[k][3] ELSE Zero
P3(f, g, k) == IF k \in DOMAIN f THEN f[k] ELSE g[k]
Bin == Is("bin") /\ LET A == reg[Ev.a] B == reg[Ev.b] IN
            IF A.r = B.r /\ A.c = B.c
            THEN /\ Ev.exc = "ok"
                 /\ Put(Ev.d, [r |-> A.r, c |-> A.c, f |-> Drop0([k \in DOMAIN A.f \cup DOMAIN B.f |->
                       LET p == P3(A.f, B.f, k) IN <<p[1], p[2], Op(Ev.k, V3(A.f, k), V3(B.f, k))>>])])
            ELSE Ev.exc = "MatrixSizeMismatch" /\ Same
Scale == Is("scale") /\ LET A == reg[Ev.a] IN Put(Ev.d, [A EXCEPT !.f = Drop0([k \in DOMAIN A.f |-> <<A.f[k][1], A.f[k][2], Mul(Ev.v, A.f[k][3])>>])])
NegOp == Is("neg") /\ LET A == reg[Ev.a] IN Put(Ev.d, [A EXCEPT !.f = [k \in DOMAIN A.f |-> <<A.f[k][1], A.f[k][2], Neg(A.f[k][3])>>]])
Cmp == Is("cmp") /\ LET q == reg[Ev.a] = reg[Ev.b] IN Ev.eq = q /\ Ev.ne = ~ q /\ Same
\* results that are only listed: <<i, j, v>> in reading order
Trans == Is("trans") /\ LET M == reg[Ev.o] IN
            /\ Ev.r = M.c /\ Ev.c = M.r /\ Len(Ev.s) = Cardinality(DOMAIN M.f) /\ Ev.fc = Len(Ev.s)
            /\ \A k \in 1..Len(Ev.s) : LET x == Ev.s[k] IN Key(x[2], x[1]) \in DOMAIN M.f /\ M.f[Key(x[2], x[1])][3] = (IF Ev.h THEN Conj(x[3]) ELSE x[3])
            /\ \A k \in 2..Len(Ev.s) : Before(Ev.s[k - 1], Ev.s[k])
            /\ Same
RECURSIVE TotalOf(_, _)
TotalOf(S, F) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN Add(F[x], TotalOf(S \ {x}, F))
\* x, y: the non-zero components, "i" |-> value; side "r": A x, side "l": x A
Comp(v, i) == IF ToString(i) \in DOMAIN v THEN v[ToString(i)] ELSE Zero
Prod(f, v, side, i) ==
    LET a == IF side = "r" THEN 1 ELSE 2 b == 3 - a S == {k \in DOMAIN f : f[k][a] = i} IN
    TotalOf(S, [k \in S |-> Mul(f[k][3], Comp(v, f[k][b]))])
MulV == Is("mulv") /\ LET f == reg[Ev.o].f a == IF Ev.side = "r" THEN 1 ELSE 2 T == {f[k][a] : k \in DOMAIN f} IN
            /\ \A i \in T : Comp(Ev.y, i) = Prod(f, Ev.x, Ev.side, i)
            /\ Cardinality(DOMAIN Ev.y) = Cardinality({i \in T : ~ IsZero(Prod(f, Ev.x, Ev.side, i))})
            /\ Ev.n = (IF Ev.side = "r" THEN reg[Ev.o].r ELSE reg[Ev.o].c)
            /\ Same

Next == \/ Reset \/ New \/ Fill \/ Set \/ SetIt \/ At \/ Counts \/ Iter \/ RowIter \/ ColIter \/ SweepEv \/ Copy \/ Move \/ Swap
        \/ Bin \/ Scale \/ NegOp \/ Cmp \/ Trans \/ MulV
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
