------------------------------ MODULE CgModel ------------------------------
(* The recurrences of cg and pcg, step by step, for every symmetric positive *)
(* definite system (and diagonal preconditioner) with the given entries.     *)
(* Checked against the characterisation the trace specification uses: the    *)
(* k-th iterate is the Galerkin solution over the k-th Krylov space.         *)
EXTENDS Solver
CONSTANTS n, Off, Diag, Rhs, Start, Pre
VARIABLES A, C, b, x0, pre, x, r, z, p, l1, k, ph, ps, rs
vars == <<A, C, b, x0, pre, x, r, z, p, l1, k, ph, ps, rs>>
call == <<A, C, b, x0, pre>>
Rng == 1..n
Z(v) == N(v - 2)               \* configuration files have no negative numbers
Sym == {M \in [Rng -> [Rng -> {Z(v) : v \in Off \cup Diag}]] :
          \A i \in Rng : M[i][i] \in {Z(v) : v \in Diag} /\ \A c \in Rng \ {i} : M[i][c] \in {Z(v) : v \in Off} /\ M[i][c] = M[c][i]}
Spd == {M \in Sym : \A m \in Rng : Less(Zero, Det(Leading(M, m)))}
Init == /\ A \in Spd /\ b \in [Rng -> {Z(v) : v \in Rhs}] /\ x0 \in [Rng -> {Z(v) : v \in Start}]
        /\ pre \in BOOLEAN
        /\ C \in (IF pre THEN {DiagM(d) : d \in [Rng -> {Frac(v, 2) : v \in Pre}]} ELSE {Eye(n, n)})
        /\ x = x0 /\ r = Resid(A, b, x0) /\ z = MVec(C, r) /\ p = z
        /\ l1 = Dot(r, z)                        \* cg: rs = |r|^2, which is the same number for C = 1
        /\ k = 0 /\ ph = "loop" /\ ps = <<>> /\ rs = <<>>
Done == ph = "loop" /\ IsNull(r) /\ ph' = "done" /\ UNCHANGED <<call, x, r, z, p, l1, k, ps, rs>>
Step == /\ ph = "loop" /\ ~ IsNull(r) /\ k <= n
        /\ LET P == TLCEval(Prim(p))               \* p = s P; the step ak p with small numbers
               i == Pivot(P)
               s == Div(p[i], P[i])
               tt == TLCEval(MVec(A, P))
               st == Div(Div(l1, s), Dot(tt, P))
               rn == TLCEval(VSub(r, VScale(tt, st)))
               zn == TLCEval(MVec(C, rn))
               l2 == Dot(rn, zn)
           IN /\ x' = TLCEval(VAdd(x, VScale(P, st)))
              /\ r' = rn /\ z' = zn /\ l1' = l2
              /\ p' = TLCEval(VAdd(zn, VScale(P, Mul(s, Div(l2, l1)))))
        /\ ps' = Append(ps, p) /\ rs' = Append(rs, r)
        /\ k' = k + 1 /\ UNCHANGED <<call, ph>>
Next == Done \/ Step
Spec == Init /\ [][Next]_vars

\* the residual that the code updates is the residual
TrueResidual == r = Resid(A, b, x)
\* exact after at most n steps
AtMostN == k <= n /\ (k = n => IsNull(r))
Conjugate == ~ IsNull(r) => \A i \in 1..Len(ps) : IsZero(Dot(MVec(A, Prim(ps[i])), Prim(p)))
Orthogonal == \A i \in 1..Len(rs) : IsZero(Dot(MVec(C, Prim(rs[i])), Prim(r)))
Characterised == Galerkin(A, C, b, x0, x, k)
NoStall == ~ IsNull(r) => Less(Zero, l1) /\ Less(Zero, Dot(MVec(A, Prim(p)), Prim(p)))
=============================================================================
