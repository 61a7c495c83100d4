----------------------------- MODULE AlgTrace -----------------------------
(* Matrix and vector functions: each recorded call carries its operands and  *)
(* its result, which has to be the one defined here.                         *)
EXTENDS Sparse, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1
Reset == Is("reset")

\* ---- C05
Unary == Is("un") /\ Ev.t = MTrans(Ev.a) /\ Ev.c = MConj(Ev.a) /\ Ev.d = MAdj(Ev.a) /\ Ev.tr = MTrace(Ev.a) /\ Ev.after = Ev.a
MulM == Is("mul") /\ Ev.after = Ev.a /\ Ev.after2 = Ev.b
        /\ IF Cols(Ev.a) = Rows(Ev.b) THEN Ev.exc = "ok" /\ Ev.r = MMul(Ev.a, Ev.b) ELSE Ev.exc = "MatrixMulMismatch"
MulV == Is("mulv") /\ Ev.after = Ev.a
        /\ IF Cols(Ev.a) = Len(Ev.v) THEN Ev.exc = "ok" /\ Ev.r = MVec(Ev.a, Ev.v) ELSE Ev.exc = "MatrixMulMismatch"
VMulEv == Is("vmul") /\ Ev.after = Ev.a
        /\ IF Rows(Ev.a) = Len(Ev.v) THEN Ev.exc = "ok" /\ Ev.r = VecM(Ev.v, Ev.a) ELSE Ev.exc = "MatrixMulMismatch"

\* ---- C06
Flat(M) == [k \in 1..(Rows(M) * Cols(M)) |-> M[((k - 1) \div Cols(M)) + 1][((k - 1) % Cols(M)) + 1]]
IsMax(x, s) == (\E i \in 1..Len(s) : s[i] = x) /\ (\A i \in 1..Len(s) : Leq(s[i], x))
IsMin(x, s) == (\E i \in 1..Len(s) : s[i] = x) /\ (\A i \in 1..Len(s) : Leq(x, s[i]))
IsNaN(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0
IsInf(x) == x[1] # 0 /\ x[3] = 0
Some(s, p(_)) == \E i \in 1..Len(s) : p(s[i])
Tests(s) == Ev.nan = Some(s, IsNaN) /\ Ev.inf = Some(s, IsInf) /\ Ev.zero = Some(s, IsZero)
Sums(s) == Ev.sum = SumSeq(s) /\ Ev.avg = Div(SumSeq(s), N(Len(s)))
Agg == Is("agg") /\ LET s == Flat(Ev.a) IN
         /\ Tests(s)
         /\ Ev.empty = \A i \in 1..Len(s) : IsZero(s[i])
         /\ "sum" \in DOMAIN Ev => Sums(s)
         /\ "max" \in DOMAIN Ev => IsMax(Ev.max, s) /\ IsMin(Ev.min, s)
         /\ ("sum" \in DOMAIN Ev /\ ~ Ev.cx) => "max" \in DOMAIN Ev
AggV == Is("aggv") /\ LET s == Ev.a IN
         /\ Tests(s)
         /\ "sum" \in DOMAIN Ev =>
              /\ Sums(s)
              /\ IF Ev.cx THEN LET q == VMap(s, NormSqr) IN
                               /\ Real(Ev.max) /\ Ev.max[1] >= 0 /\ IsMax(Mul(Ev.max, Ev.max), q)
                               /\ Real(Ev.min) /\ Ev.min[1] >= 0 /\ IsMin(Mul(Ev.min, Ev.min), q)
                 ELSE IsMax(Ev.max, s) /\ IsMin(Ev.min, s)

\* ---- C08
EyeEv == Is("eye") /\ Ev.res = Eye(Ev.r, Ev.c)
DiagV == Is("diagv") /\ Ev.res = DiagM(Ev.v)
DiagOf == Is("diagm") /\ Ev.res = [i \in 1..IMin(Rows(Ev.a), Cols(Ev.a)) |-> Ev.a[i][i]]
Tri == Is("tri") /\ Ev.l = [i \in 1..Rows(Ev.a) |-> [j \in 1..Cols(Ev.a) |-> IF j <= i + Ev.o THEN Ev.a[i][j] ELSE Zero]]
                 /\ Ev.u = [i \in 1..Rows(Ev.a) |-> [j \in 1..Cols(Ev.a) |-> IF j >= i + Ev.o THEN Ev.a[i][j] ELSE Zero]]
Conv == Is("conv") /\ Ev.s = Ev.a /\ Ev.n = Filled(Ev.a) /\ Ev.d = Ev.a /\ Ev.d2 = Ev.a /\ Ev.ad = Ev.a /\ Ev.as = Ev.a
Hilb == Is("hilb") /\ Ev.h = [i \in 1..Ev.n |-> [j \in 1..Ev.n |-> <<1, 0, i + j - 1>>]]
                   /\ Rows(Ev.i) = Ev.n /\ Cols(Ev.i) = Ev.n /\ MMul(Ev.h, Ev.i) = Eye(Ev.n, Ev.n)
Pred == Is("pred") /\ Ev.after = Ev.a /\ LET A == Ev.a q == IsSquare(A) IN
         /\ Ev.sym = (q /\ MTrans(A) = A)
         /\ Ev.her = (q /\ MAdj(A) = A)
         /\ Ev.ssym = (q /\ MTrans(A) = MNeg(A))
         /\ Ev.sher = (q /\ MAdj(A) = MNeg(A))
         /\ Ev.orth = (q /\ MMul(A, MTrans(A)) = Eye(Rows(A), Rows(A)))
         /\ Ev.unit = (q /\ MMul(A, MAdj(A)) = Eye(Rows(A), Rows(A)))
         /\ Ev.proj = (q /\ MMul(A, A) = A)

PredS == Is("preds") /\ Ev.after = Ev.a /\ LET A == Ev.a q == IsSquare(A) IN
         /\ Ev.sym = (q /\ MTrans(A) = A)
         /\ Ev.her = (q /\ MAdj(A) = A)
         /\ Ev.ssym = (q /\ MTrans(A) = MNeg(A))
         /\ Ev.sher = (q /\ MAdj(A) = MNeg(A))

\* ---- C29: squares of the row-maximum and row-minimum norms, and of the condition number times the latter; unstored entries of a sparse matrix are left out of the minimum
Squares(r) == [j \in 1..Len(r) |-> r[j][1] * r[j][1]]                    \* whole numbers only
Largest(r) == LET q == Squares(r) IN CHOOSE x \in ToSet(q) : \A y \in ToSet(q) : y <= x
Kept(r) == IF Ev.k = "sparse" THEN SelectSeq(r, LAMBDA x : ~ IsZero(x)) ELSE r
Smallest(r) == LET q == Squares(r) IN CHOOSE x \in ToSet(q) : \A y \in ToSet(q) : x <= y
Total(A, f(_)) == FoldLeft(LAMBDA a, r : a + f(r), 0, A)
NormOk == LET A == Ev.a mx == Total(A, Largest)
              has == \A i \in 1..Len(A) : Kept(A[i]) # <<>>               \* the minimum of nothing is not specified
              mn == IF has THEN Total([i \in 1..Len(A) |-> Kept(A[i])], Smallest) ELSE 0
          IN /\ Ev.signs /\ Ev.after = A
             /\ Ev.max = N(mx)
             /\ has => /\ Ev.min = N(mn)
                       /\ Ev.cm = IF mn > 0 THEN N(mx) ELSE IF mx > 0 THEN PInf ELSE NaN
Norm == Is("norm") /\ NormOk = TRUE

Next == Reset \/ Norm \/ Unary \/ MulM \/ MulV \/ VMulEv \/ Agg \/ AggV \/ EyeEv \/ DiagV \/ DiagOf \/ Tri \/ Conv \/ Hilb \/ Pred \/ PredS
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
