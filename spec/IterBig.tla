------------------------------ MODULE IterBig ------------------------------
(* Many iterations on larger systems (C13, C14), as a state machine: the     *)
(* state is the iterate after `it` iterations, every recorded call with a    *)
(* higher limit moves it on.  A matrix is a sequence of rows, a row the      *)
(* sequence of its entries <<j, v>> (j from 0), v a number as in Num.        *)
EXTENDS LinAlg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sys, x, it, stop
vars == <<l, sys, x, it, stop>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1 /\ sys = 0 /\ x = <<>> /\ it = 0 /\ stop = FALSE
S == Trace[sys]              \* the event that describes the system
n == Len(S.b)
Reset == Is("reset") /\ sys' = 0 /\ x' = <<>> /\ it' = 0 /\ stop' = FALSE
System == Is("system") /\ sys' = l /\ x' = Ev.x0 /\ it' = 0 /\ stop' = FALSE

\* ---- C13
Entry(row, i) == LET k == CHOOSE k \in 1..Len(row) : row[k][1] = i - 1 IN row[k][2]
Rest(row, i, y) == FoldLeft(LAMBDA a, e : IF e[1] = i - 1 THEN a ELSE Add(a, Mul(e[2], y[e[1] + 1])), Zero, row)
JacobiStep(y) == TLCEval([i \in 1..n |-> Div(Sub(S.b[i], Rest(S.a[i], i, y)), Entry(S.a[i], i))])
SorStep(y) == FoldLeft(LAMBDA z, i : [z EXCEPT ![i] = Add(Mul(Sub(One, S.w), z[i]), Mul(S.w, Div(Sub(S.b[i], Rest(S.a[i], i, z)), Entry(S.a[i], i))))], y, [i \in 1..n |-> i])
Step(y) == IF S.sor THEN SorStep(y) ELSE JacobiStep(y)
Dist2(y, z) == FoldLeft(LAMBDA a, i : Add(a, NormSqr(Sub(y[i], z[i]))), Zero, [i \in 1..n |-> i])
\* from the iterate s.x after s.it iterations on to iteration `max`, or the first that is close enough
Advance(s, max) ==
    FoldLeft(LAMBDA q, k : IF q.stop THEN q
                           ELSE LET y == Step(q.x) IN [x |-> y, it |-> k, stop |-> Leq(Dist2(y, q.x), Mul(S.eps, S.eps))],
             s, [k \in 1..(max - s.it) |-> s.it + k])
Upto == Is("upto") /\ Ev.max >= it /\ LET s == TLCEval(Advance([x |-> x, it |-> it, stop |-> stop], IF stop THEN it ELSE Ev.max)) IN
    /\ Ev.exc = "ok" /\ Ev.x = s.x /\ Ev.n = s.it
    /\ x' = s.x /\ it' = s.it /\ stop' = s.stop /\ UNCHANGED sys
Untouched == Is("untouched") /\ Ev.a /\ Ev.b /\ Ev.x /\ UNCHANGED <<sys, x, it, stop>>

\* ---- C14: along the order S.p the matrix is tridiagonal with all off-diagonal entries non-zero, the preconditioner is diagonal and the
\* first residual a multiple of the first unit vector of that order.  Hence the k-th (preconditioned) Krylov space is spanned by the
\* first k of these unit vectors, and the best point is the one whose residual vanishes on them.
P(i) == S.p[i] + 1
Place == [j \in {S.p[i] : i \in 1..n} |-> CHOOSE i \in 1..n : S.p[i] = j]
Resid(y) == TLCEval([i \in 1..n |-> Sub(S.b[i], FoldLeft(LAMBDA a, e : Add(a, Mul(e[2], y[e[1] + 1])), Zero, S.a[i]))])
PathSystem == Is("path") /\ sys' = l /\ x' = Ev.x0 /\ it' = 0 /\ stop' = FALSE
    /\ (LET E == Ev m == Len(E.b) pl == TLCEval([j \in 0..(m - 1) |-> CHOOSE i \in 1..m : E.p[i] = j])
            r == [i \in 1..m |-> Sub(E.b[i], FoldLeft(LAMBDA a, e : Add(a, Mul(e[2], E.x0[e[1] + 1])), Zero, E.a[i]))] IN
        /\ Len(E.p) = m
        /\ \A i \in 1..m : \A k \in 1..Len(E.a[i]) : LET e == E.a[i][k] IN IAbs(pl[i - 1] - pl[e[1]]) <= 1 /\ ~ IsZero(e[2])
        /\ \A i \in 1..m : Len(E.a[i]) = 1 + (IF pl[i - 1] > 1 THEN 1 ELSE 0) + (IF pl[i - 1] < m THEN 1 ELSE 0)
        /\ \A i \in 1..m : ~ IsZero(E.c[i])
        /\ \A i \in 1..m : (pl[i - 1] = 1) = ~ IsZero(r[i])) = TRUE
Best(y, k) == LET r == Resid(y) IN
    /\ \A i \in 1..n : Finite(y[i])
    /\ \A i \in 1..n : IF i <= k THEN IsZero(r[P(i)]) ELSE y[P(i)] = S.x0[P(i)]
Norm2(y) == LET r == Resid(y) IN FoldLeft(LAMBDA a, v : Add(a, Mul(v, v)), Zero, r)
\* with limit max and a negligible tolerance (the order of the system is the last iteration)
CgUpto == Is("cgupto") /\ (LET k == IF Ev.max < n THEN Ev.max ELSE n IN Ev.exc = "ok" /\ Ev.n = k /\ Best(Ev.x, k)) = TRUE /\ x' = Ev.x /\ it' = Ev.n /\ UNCHANGED <<sys, stop>>
\* with tolerance eps: x after Ev.n iterations, the state holds the iterate before
CgStop == Is("cgstop") /\ (/\ Ev.exc = "ok" /\ Ev.n <= Ev.max /\ Best(Ev.x, Ev.n)
                           /\ (Ev.n < Ev.max => Leq(Norm2(Ev.x), Mul(Ev.eps, Ev.eps)))
                           /\ (Ev.n > 0 => it = Ev.n - 1 /\ Leq(Mul(Ev.eps, Ev.eps), Norm2(x)))) = TRUE
          /\ UNCHANGED <<sys, x, it, stop>>
\* two eigenvalues: the best point on the line x0 + t C r0, then the solution
Line(y) == LET r == Resid(y) r0 == Resid(S.x0) z0 == TLCEval([i \in 1..n |-> Mul(S.c[i], r0[i])]) d == TLCEval([i \in 1..n |-> Sub(y[i], S.x0[i])])
               j == CHOOSE i \in 1..n : ~ IsZero(z0[i]) t == Div(d[j], z0[j]) IN
    /\ \A i \in 1..n : Finite(y[i]) /\ d[i] = Mul(t, z0[i])
    /\ IsZero(FoldLeft(LAMBDA a, i : Add(a, Mul(r[i], z0[i])), Zero, [i \in 1..n |-> i]))
Two == Is("two") /\ (/\ \A i \in 1..4 : Ev.exc[i] = "ok"
                     /\ Ev.xs[1] = S.x0 /\ Line(Ev.xs[2]) /\ ~ IsZero(Norm2(Ev.xs[2])) /\ IsZero(Norm2(Ev.xs[3])) /\ Ev.xs[4] = Ev.xs[3]
                     /\ Ev.ns = <<0, 1, 2, 2>>) = TRUE
       /\ UNCHANGED <<sys, x, it, stop>>
\* the Jacobi preconditioner of a matrix with diagonal d
Pre == Is("pre") /\ (LET m == Len(Ev.d) IN Len(Ev.c) = m /\ \A i \in 1..m : Ev.c[i] = <<<<i - 1, Inv(Ev.d[i])>>>>) = TRUE /\ UNCHANGED <<sys, x, it, stop>>

Next == Reset \/ System \/ Upto \/ Untouched \/ PathSystem \/ CgUpto \/ CgStop \/ Two \/ Pre
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
