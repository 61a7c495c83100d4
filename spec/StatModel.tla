------------------------------ MODULE StatModel ------------------------------
(* Jacobi and SOR entry by entry, with the vectors x and xm of the code.     *)
(* Every system with the given entries, run with every iteration limit up to *)
(* `Iters` and every tolerance; checked against the sweeps of Solver.          *)
EXTENDS Solver
CONSTANTS n, Off, Diag, Rhs, Start, Ws, Eps2, Iters
VARIABLES A, b, x0, sor, w, eps2, max,          \* the call
          x, xm, it, i, j, mid, t, cnt, ph
vars == <<A, b, x0, sor, w, eps2, max, x, xm, it, i, j, mid, t, cnt, ph>>
call == <<A, b, x0, sor, w, eps2, max>>
Rng == 1..n
Z(k) == N(k - 2)               \* configuration files have no negative numbers
Init == /\ A \in {M \in [Rng -> [Rng -> {Z(k) : k \in Off \cup Diag}]] : \A r \in Rng : M[r][r] \in {Z(k) : k \in Diag} /\ \A c \in Rng \ {r} : M[r][c] \in {Z(k) : k \in Off}}
        /\ b \in [Rng -> {N(k) : k \in Rhs}] /\ x0 \in [Rng -> {N(k) : k \in Start}]
        /\ sor \in BOOLEAN /\ w \in (IF sor THEN {<<k, 0, 2>> : k \in Ws \ {2}} \cup {One} ELSE {One})
        /\ eps2 \in {Frac(k, 4) : k \in Eps2} /\ max \in 1..Iters
        /\ x = x0 /\ xm = (IF sor THEN x0 ELSE [r \in Rng |-> Zero])
        /\ it = 0 /\ i = 1 /\ j = 1 /\ mid = Zero /\ t = Zero /\ cnt = -1 /\ ph = "row"
\* one stored entry of row i
Entry == /\ ph = "row" /\ j <= n
         /\ IF j = i THEN mid' = A[i][j] /\ UNCHANGED t
            ELSE t' = Add(t, Mul(A[i][j], IF sor /\ j < i THEN xm[j] ELSE x[j])) /\ UNCHANGED mid
         /\ j' = j + 1 /\ UNCHANGED <<call, x, xm, it, i, cnt, ph>>
RowEnd == /\ ph = "row" /\ j > n
          /\ IF IsZero(mid) THEN ph' = "zero" /\ UNCHANGED <<xm, i, j, mid, t>>
             ELSE LET s == Div(Sub(b[i], t), mid) IN
                  /\ xm' = [xm EXCEPT ![i] = IF sor THEN Add(Mul(Sub(One, w), xm[i]), Mul(w, s)) ELSE s]
                  /\ mid' = Zero /\ t' = Zero /\ j' = 1
                  /\ IF i < n THEN i' = i + 1 /\ UNCHANGED ph ELSE i' = 1 /\ ph' = "test"
          /\ UNCHANGED <<call, x, it, cnt>>
Test == /\ ph = "test"
        /\ IF Leq(Dist2(xm, x), eps2) THEN cnt' = it + 1 /\ ph' = "conv" /\ UNCHANGED <<x, it>>
           ELSE /\ x' = xm
                /\ IF it + 1 < max THEN it' = it + 1 /\ ph' = "row" /\ UNCHANGED cnt
                   ELSE cnt' = max /\ ph' = "limit" /\ UNCHANGED it
        /\ UNCHANGED <<call, xm, i, j, mid, t>>
Next == Entry \/ RowEnd \/ Test
Spec == Init /\ [][Next]_vars

Result == IF ph = "conv" THEN xm ELSE x
AsSpecified == ph \in {"conv", "limit"} => LET r == Iterate(A, b, w, x0, sor, eps2, 0, max) IN ~ ZeroInDiag(A) /\ Result = r.x /\ cnt = r.n
ZeroFound == ph = "zero" => ZeroInDiag(A)
\* what the code may rely on when it starts a sweep: SOR has xm = x there, Jacobi overwrites all of xm
Fresh == ph = "row" /\ sor => \A k \in i..n : xm[k] = x[k]
\* a fixed point of either sweep solves the system
FixedPoint == ph = "conv" /\ xm = x => MVec(A, x) = b
=============================================================================
