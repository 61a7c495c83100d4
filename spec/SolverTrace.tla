---------------------------- MODULE SolverTrace ----------------------------
(* Recorded solver runs.                                                     *)
EXTENDS Solver, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1
Reset == Is("reset")

\* C13: `n` is absent if the caller did not ask for the number of iterations
ItEv == Is("it") /\ LET A == Ev.a IN
    /\ Ev.aa = A /\ Ev.ab = Ev.b /\ Ev.ax = Ev.x0
    /\ LET shape == (IF IsSquare(A) THEN {} ELSE {"NotSquare"}) \cup (IF Rows(A) = Len(Ev.b) /\ Rows(A) = Len(Ev.x0) THEN {} ELSE {"MatrixVectorMismatch"}) IN
       IF shape # {} THEN Ev.exc \in shape
       ELSE IF ZeroInDiag(A) THEN Ev.exc = "MatrixHasZeroInDiag"
       ELSE LET r == Iterate(A, Ev.b, Ev.w, Ev.x0, Ev.sor, Mul(Ev.eps, Ev.eps), 0, Ev.max) IN
            Ev.exc = "ok" /\ Ev.x = r.x /\ ("n" \in DOMAIN Ev => Ev.n = r.n)

\* C14: xs[j + 1], ns[j + 1]: result and count with at most j iterations and a negligible tolerance
CgEv == Is("cg") /\ LET A == Ev.a C == IF Ev.pre THEN Ev.c ELSE Eye(Rows(A), Rows(A)) b == Ev.b m == Len(Ev.xs)
                        rr == TLCEval([j \in 1..m |-> LET r == Resid(A, b, Ev.xs[j]) IN Dot(r, r)]) IN
    /\ Ev.aa = A /\ Ev.ac = Ev.c /\ Ev.ab = b /\ Ev.ax = Ev.x0
    /\ \A j \in 1..Len(Ev.exc) : Ev.exc[j] = "ok"
    /\ Ev.xs[1] = Ev.x0 /\ Ev.ns[1] = 0
    /\ \A j \in 2..m : IF IsZero(rr[j - 1]) THEN Ev.xs[j] = Ev.xs[j - 1] /\ Ev.ns[j] = Ev.ns[j - 1]
                       ELSE /\ Ev.ns[j] = j - 1
                            /\ Galerkin(A, C, b, Ev.x0, Ev.xs[j], j - 1)
    /\ \E j \in 1..(Rows(A) + 1) : IsZero(rr[j])                 \* exact after at most n iterations
    /\ \A q \in 1..Len(Ev.runs) : LET R == Ev.runs[q] e2 == Mul(R.eps, R.eps) IN
         /\ R.exc = "ok" /\ R.n <= R.max /\ R.n < m /\ R.x = Ev.xs[R.n + 1]
         /\ \A j \in 0..(R.n - 1) : Leq(e2, rr[j + 1])
         /\ R.n < R.max => Leq(rr[R.n + 1], e2)
\* d: rows and columns of A and C, sizes of b and x0
CgBad == Is("cgbad") /\ LET d == Ev.d
             bad == \/ d[1] # d[2] \/ d[5] # d[1] \/ d[6] # d[1] \/ (Ev.pre /\ (d[3] # d[4] \/ d[3] # d[1])) IN
         IF bad THEN Ev.exc \in (IF d[1] # d[2] \/ (Ev.pre /\ d[3] # d[4]) THEN {"NotSquare"} ELSE {})
                               \cup (IF Ev.pre /\ d[3] # d[1] THEN {"MatrixSizeMismatch"} ELSE {})
                               \cup (IF d[5] # d[1] \/ d[6] # d[1] THEN {"MatrixMulMismatch", "VectorSizeMismatch", "MatrixVectorMismatch"} ELSE {})
         ELSE Ev.exc = "ok"
\* builds with NS_ALLOW_CHECKS
CgAsym == Is("cgasym") /\ MAdj(Ev.a) # Ev.a /\ Ev.exc = "NotHermitian"
Precond == Is("pre") /\ LET A == Ev.a IN
    /\ Ev.aa = A
    /\ LET shape == (IF IsSquare(A) /\ IsSquare(Ev.cs) THEN {} ELSE {"NotSquare"}) \cup (IF Rows(A) = Rows(Ev.cs) THEN {} ELSE {"MatrixSizeMismatch"}) IN
       IF shape # {} THEN Ev.exc \in shape
       ELSE IF ZeroInDiag(A) THEN Ev.exc = "Singular"
       ELSE Ev.exc = "ok" /\ Ev.c = [i \in 1..Rows(A) |-> [j \in 1..Rows(A) |-> IF i = j THEN Inv(A[i][i]) ELSE Zero]]

Next == Reset \/ ItEv \/ CgEv \/ CgBad \/ CgAsym \/ Precond
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
