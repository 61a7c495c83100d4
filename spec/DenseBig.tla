------------------------------ MODULE DenseBig ------------------------------
(* Dense and fixed matrices, and vectors, with many entries (C04 - C08).     *)
(* All values are whole numbers; anything else is recorded as Bad.  A matrix *)
(* is [r, c, f] with f its entries row by row; a vector has r = 1.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Nil == [r |-> 0, c |-> 0, f |-> <<>>]
Init == l = 1 /\ reg = [o \in 1..4 |-> Nil]
Put(o, M) == reg' = [reg EXCEPT ![o] = M]
Same == UNCHANGED reg
Reset == Is("reset") /\ reg' = [o \in 1..4 |-> Nil]
Mat == Is("mat") /\ Len(Ev.f) = Ev.r * Ev.c /\ Put(Ev.o, [r |-> Ev.r, c |-> Ev.c, f |-> Ev.f])
Pos(M, i, j) == i * M.c + j + 1                       \* i, j from 0
RowOf(M, k) == (k - 1) \div M.c
ColOf(M, k) == (k - 1) % M.c
Set == Is("set") /\ LET M == reg[Ev.o] IN Put(Ev.o, [M EXCEPT !.f[Pos(M, Ev.i, Ev.j)] = Ev.v])
Copy == Is("copy") /\ Put(Ev.d, reg[Ev.s])
Move == Is("move") /\ reg' = [reg EXCEPT ![Ev.d] = reg[Ev.s], ![Ev.s] = Nil]
Swap == Is("swap") /\ reg' = [reg EXCEPT ![Ev.a] = reg[Ev.b], ![Ev.b] = reg[Ev.a]]
Fill == Is("fillv") /\ LET M == reg[Ev.o] IN Put(Ev.o, [M EXCEPT !.f = [k \in 1..Len(M.f) |-> Ev.v]])
Resize == Is("resize") /\ LET M == reg[Ev.o] IN Put(Ev.o, [r |-> 1, c |-> Ev.n, f |-> [k \in 1..Ev.n |-> IF k <= Len(M.f) THEN M.f[k] ELSE 0]])
\* everything that can be read; the last six: row and column iteration one after the other
ShowOk == LET M == reg[Ev.o] IN
    /\ Ev.r = M.r /\ Ev.c = M.c /\ Ev.size = Len(M.f) /\ Ev.at = M.f /\ Ev.lat = M.f
    /\ Ev.sv = M.f /\ Len(Ev.si) = Len(M.f) /\ Len(Ev.sj) = Len(M.f) /\ \A k \in 1..Len(M.f) : Ev.si[k] = RowOf(M, k) /\ Ev.sj[k] = ColOf(M, k)
    /\ Ev.rv = M.f /\ Ev.ri = Ev.si /\ Ev.rj = Ev.sj
    /\ Len(Ev.cv) = Len(M.f) /\ \A k \in 1..Len(M.f) : LET i == (k - 1) % M.r j == (k - 1) \div M.r IN Ev.ci[k] = i /\ Ev.cj[k] = j /\ Ev.cv[k] = M.f[Pos(M, i, j)]
Show == Is("show") /\ ShowOk = TRUE /\ Same
ShowVOk == LET f == reg[Ev.o].f IN Ev.size = Len(f) /\ Ev.at = f /\ Ev.lat = f /\ Ev.br = f /\ Ev.it = f
ShowV == Is("showv") /\ ShowVOk = TRUE /\ Same
ReadOk == reg[Ev.o].f = Ev.at /\ reg[Ev.o].r = Ev.r /\ reg[Ev.o].c = Ev.c
Read == Is("read") /\ ReadOk = TRUE /\ Same
Elem(k, a, b) == CASE k = "add" -> a + b [] k = "sub" -> a - b [] k = "mul" -> a * b
Bin == Is("bin") /\ LET A == reg[Ev.a] B == reg[Ev.b] IN
    IF A.r = B.r /\ A.c = B.c THEN Ev.exc = "ok" /\ Put(Ev.d, [A EXCEPT !.f = [k \in 1..Len(A.f) |-> Elem(Ev.k, A.f[k], B.f[k])]])
    ELSE Ev.exc = Ev.want /\ Ev.want \in {"MatrixSizeMismatch", "VectorSizeMismatch"} /\ Same
Scal == Is("scal") /\ LET A == reg[Ev.a] IN Put(Ev.d, [A EXCEPT !.f = [k \in 1..Len(A.f) |-> IF Ev.side = "l" THEN Elem(Ev.k, Ev.v, A.f[k]) ELSE Elem(Ev.k, A.f[k], Ev.v)]])
\* entries that divide each other: v / w with w = +-1, logged with the divisor
DivV == Is("div") /\ LET A == reg[Ev.a] B == reg[Ev.b] IN Put(Ev.d, [A EXCEPT !.f = [k \in 1..Len(A.f) |-> IF B.f[k] = 1 THEN A.f[k] ELSE - A.f[k]]]) /\ (\A k \in 1..Len(B.f) : B.f[k] \in {1, -1}) = TRUE
NegOp == Is("neg") /\ LET A == reg[Ev.a] IN Put(Ev.d, [A EXCEPT !.f = [k \in 1..Len(A.f) |-> - A.f[k]]])
CmpOk == LET q == reg[Ev.a] = reg[Ev.b] IN Ev.eq = q /\ Ev.ne = ~ q
Cmp == Is("cmp") /\ CmpOk = TRUE /\ Same
Sum(f) == FoldLeft(LAMBDA a, x : a + x, 0, f)
\* ---- vectors
Total(f, g) == FoldLeft(LAMBDA a, k : a + f[k] * g[k], 0, [k \in 1..Len(f) |-> k])
DotEvOk == Ev.r = Total(reg[Ev.a].f, reg[Ev.b].f) /\ Ev.sq = Total(reg[Ev.a].f, reg[Ev.a].f) /\ Ev.m2 = Ev.sq
DotEv == Is("dot") /\ DotEvOk = TRUE /\ Same
SliceOk == LET f == reg[Ev.o].f IN
    /\ Ev.r = CASE Ev.k = "left" -> SubSeq(f, 1, Ev.i + 1) [] Ev.k = "right" -> SubSeq(f, Ev.i + 1, Len(f)) [] Ev.k = "mid" -> SubSeq(f, Ev.i + 1, IF Ev.j < Len(f) THEN Ev.j ELSE Len(f))
Slice == Is("slice") /\ SliceOk = TRUE /\ Same
HasEvOk == LET f == reg[Ev.o].f IN Ev.r = (\E k \in (Ev.i + 1)..(IF Ev.j < Len(f) THEN Ev.j ELSE Len(f)) : f[k] = Ev.v)
HasEv == Is("has") /\ HasEvOk = TRUE /\ Same
\* ---- C06: `hole` entries are not stored and count as zeros (hole = TRUE: there are some); nan, inf: whether one was put in
IsMax(x, f, hole) == (\A k \in 1..Len(f) : f[k] <= x) /\ (hole => 0 <= x) /\ ((\E k \in 1..Len(f) : f[k] = x) \/ (hole /\ x = 0))
AggOk == LET M == reg[Ev.o] h == Ev.hole IN
    /\ Ev.sum = Sum(M.f) /\ Ev.total = Ev.sum               \* average times number of entries
    /\ IsMax(Ev.max, M.f, h) /\ IsMax(- Ev.min, [k \in 1..Len(M.f) |-> - M.f[k]], h)
    /\ Ev.zero = (h \/ \E k \in 1..Len(M.f) : M.f[k] = 0)
    /\ ~ Ev.nan /\ ~ Ev.inf
    /\ "empty" \in DOMAIN Ev => Ev.empty = \A k \in 1..Len(M.f) : M.f[k] = 0
Agg == Is("agg") /\ AggOk = TRUE /\ Same
AggSOk == Ev.nan = (Ev.put = "nan") /\ Ev.inf = (Ev.put = "inf") /\ (Ev.zero = (\E k \in 1..Len(reg[Ev.o].f) : k # Ev.at + 1 /\ reg[Ev.o].f[k] = 0))
AggS == Is("aggs") /\ AggSOk = TRUE /\ Same
\* ---- C05
T(M) == [r |-> M.c, c |-> M.r, f |-> [k \in 1..Len(M.f) |-> M.f[((k - 1) % M.r) * M.c + ((k - 1) \div M.r) + 1]]]
TransOk == LET M == reg[Ev.o] IN
    /\ Ev.r = M.c /\ Ev.c = M.r /\ Len(Ev.f) = Len(M.f) /\ \A i \in 0..(M.r - 1) : \A j \in 0..(M.c - 1) : Ev.f[j * M.r + i + 1] = M.f[i * M.c + j + 1]
    /\ Ev.a = Ev.f /\ Ev.conj = M.f
    /\ Ev.tr = Sum([k \in 1..(IF M.r < M.c THEN M.r ELSE M.c) |-> M.f[Pos(M, k - 1, k - 1)]])
Trans == Is("trans") /\ TransOk = TRUE /\ Same
DotAt(A, i, B, j) == FoldLeft(LAMBDA a, k : a + A.f[i * A.c + k] * B.f[(k - 1) * B.c + j + 1], 0, [k \in 1..A.c |-> k])
MulOk == LET A == reg[Ev.a] B == reg[Ev.b] IN
    /\ IF A.c # B.r THEN Ev.exc = "MatrixMulMismatch"
       ELSE /\ Ev.exc = "ok" /\ Ev.r = A.r /\ Ev.c = B.c /\ Len(Ev.f) = A.r * B.c
            /\ \A i \in 0..(A.r - 1) : \A j \in 0..(B.c - 1) : Ev.f[i * B.c + j + 1] = DotAt(A, i, B, j)
Mul == Is("mul") /\ MulOk = TRUE /\ Same
\* ---- C08
EyeOk == Ev.r = Len(Ev.d) /\ Ev.f = [k \in 1..(Ev.r * Ev.c) |-> IF (k - 1) \div Ev.c = (k - 1) % Ev.c THEN Ev.d[((k - 1) \div Ev.c) + 1] ELSE 0]
Eye == Is("eye") /\ EyeOk = TRUE /\ Same
DiagOfOk == LET M == reg[Ev.o] IN Ev.f = [k \in 1..(IF M.r < M.c THEN M.r ELSE M.c) |-> M.f[Pos(M, k - 1, k - 1)]]
DiagOf == Is("diagof") /\ DiagOfOk = TRUE /\ Same
TriOk == LET M == reg[Ev.o] IN
    /\ Ev.r = M.r /\ Ev.c = M.c
    /\ Ev.l = [k \in 1..Len(M.f) |-> IF ColOf(M, k) <= RowOf(M, k) + Ev.off THEN M.f[k] ELSE 0]
    /\ Ev.u = [k \in 1..Len(M.f) |-> IF ColOf(M, k) >= RowOf(M, k) + Ev.off THEN M.f[k] ELSE 0]
Tri == Is("tri") /\ TriOk = TRUE /\ Same
\* q: the denominators of the entries, all numerators one
HilbOk == Len(Ev.q) = Ev.n * Ev.n /\ (\A k \in 1..Len(Ev.q) : Ev.q[k] = ((k - 1) \div Ev.n) + ((k - 1) % Ev.n) + 1)
Hilb == Is("hilb") /\ HilbOk = TRUE /\ Same
ConvOk == LET M == reg[Ev.o] IN
    /\ Ev.r = M.r /\ Ev.c = M.c /\ Ev.s = M.f /\ Ev.d = M.f /\ Ev.n = Cardinality({k \in 1..Len(M.f) : M.f[k] # 0})
Conv == Is("conv") /\ ConvOk = TRUE /\ Same
Sym(M, s) == \A i \in 0..(M.r - 1) : \A j \in 0..i : M.f[Pos(M, i, j)] = s * M.f[Pos(M, j, i)]
Support(M, i) == {k \in 1..M.c : M.f[i * M.c + k] # 0}
SDot(M, S, i, j) == FoldLeft(LAMBDA a, k : a + M.f[i * M.c + k] * M.f[j * M.c + k], 0, SetToSeq(S[i] \cap S[j]))
Orth(M) == LET S == TLCEval([i \in 0..(M.r - 1) |-> Support(M, i)]) IN \A i \in 0..(M.r - 1) : \A j \in 0..i : SDot(M, S, i, j) = (IF i = j THEN 1 ELSE 0)
Proj(M) == LET S == TLCEval([i \in 0..(M.r - 1) |-> Support(M, i)]) IN
    \A i \in 0..(M.r - 1) : \A j \in 0..(M.c - 1) : FoldLeft(LAMBDA a, k : a + M.f[i * M.c + k] * M.f[(k - 1) * M.c + j + 1], 0, SetToSeq(S[i])) = M.f[Pos(M, i, j)]
PredOk == LET M == reg[Ev.o] q == M.r = M.c IN
    /\ Ev.sym = (q /\ Sym(M, 1)) /\ Ev.her = Ev.sym /\ Ev.ssym = (q /\ Sym(M, -1)) /\ Ev.sher = Ev.ssym
    /\ Ev.orth = (q /\ Orth(M)) /\ Ev.unit = Ev.orth /\ Ev.proj = (q /\ Proj(M))
Pred == Is("pred") /\ PredOk = TRUE /\ Same
\* ---- C29: squares; unstored entries of a sparse matrix (sp) are left out of the minimum
RowBest(M, i, best(_, _), start, skip) == FoldLeft(LAMBDA a, k : LET x == M.f[i * M.c + k] IN IF skip /\ x = 0 THEN a ELSE IF a = -1 THEN x * x ELSE best(a, x * x), start, [k \in 1..M.c |-> k])
Larger(a, b) == IF a >= b THEN a ELSE b
Smaller(a, b) == IF a <= b THEN a ELSE b
NormOk == LET M == reg[Ev.o]
              mx == FoldLeft(LAMBDA a, i : a + RowBest(M, i - 1, Larger, -1, FALSE), 0, [i \in 1..M.r |-> i])
              mn == FoldLeft(LAMBDA a, i : a + RowBest(M, i - 1, Smaller, -1, Ev.sp), 0, [i \in 1..M.r |-> i])
          IN Ev.max = mx /\ Ev.min = mn /\ Ev.cm = (IF mn > 0 THEN mx ELSE -1)
Norm == Is("norm") /\ NormOk = TRUE /\ Same

Next == \/ Reset \/ Norm \/ Mat \/ Set \/ Copy \/ Move \/ Swap \/ Fill \/ Resize \/ Show \/ ShowV \/ Read \/ Bin \/ Scal \/ DivV \/ NegOp \/ Cmp
        \/ DotEv \/ Slice \/ HasEv \/ Agg \/ AggS \/ Trans \/ Mul \/ Eye \/ DiagOf \/ Tri \/ Hilb \/ Conv \/ Pred
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
