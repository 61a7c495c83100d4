------------------------------- MODULE FdModel -------------------------------
(* The scheme of Fd.tla as a transition system: a configuration is chosen,   *)
(* then the inner values advance step by step, each step solving the inner   *)
(* equations exactly.  The values stay those of u, and the whole system in   *)
(* space and time has u as a solution; its matrices are such that there is   *)
(* no other one.                                                             *)
EXTENDS Fd, LinAlg
CONSTANTS MaxX, MaxY, Steps
VARIABLES conf, time, val
vars == <<conf, time, val>>
Unit(m) == [k \in 1..10 |-> IF k = m THEN 1 ELSE 0]
NoPoly == [k \in 1..10 |-> 0]
Confs == {[xc |-> x, yc |-> y, nt |-> n, hx |-> a, hy |-> b, ht |-> h, x0 |-> -1, y0 |-> 2, k |-> 2, p |-> p, q |-> q] :
              x \in 3..MaxX, y \in 3..MaxY, n \in {0, Steps}, a \in 1..2, b \in 1..2, h \in 1..2, p \in {Unit(1), Unit(7), Unit(9)} \cup {<<1, 2, 0, 1, 1, 2, 0, 1, 0, 2>>}, q \in {NoPoly, Unit(5), Unit(10)}}
Useful(c) == c.nt = 0 => c.q = NoPoly /\ c.ht = 1
Exacts(c, t) == [m \in 1..Inner(c) |-> N(Value(c, t, ICol(c, m), IRow(c, m)))]
Zeros(c) == [m \in 1..Inner(c) |-> Zero]
InnerMat(c) == [m \in 1..Inner(c) |-> [l \in 1..Inner(c) |-> LET e == {z \in InnerEquation(c, m) : z[1] = l} IN IF e = {} THEN Zero ELSE (CHOOSE z \in e : TRUE)[2]]]
\* Gauss elimination of the augmented rows, without exchanges (the matrices are diagonally dominant)
RECURSIVE Elim(_, _)
Elim(R, k) == IF k > Len(R) THEN R
              ELSE LET p == [j \in 1..Len(R[k]) |-> Div(R[k][j], R[k][k])]
                   IN Elim(TLCEval([i \in 1..Len(R) |-> IF i = k THEN p ELSE [j \in 1..Len(p) |-> Sub(R[i][j], Mul(R[i][k], p[j]))]]), k + 1)
SolveIt(A, b) == LET R == Elim([i \in 1..Len(A) |-> Append(A[i], b[i])], 1) IN [i \in 1..Len(A) |-> R[i][Len(A) + 1]]

Init == conf \in {c \in Confs : Useful(c)} /\ time = 0 /\ val = IF conf.nt = 0 THEN SolveIt(InnerMat(conf), [m \in 1..Inner(conf) |-> InnerRight(conf, 0, Zeros(conf), m)]) ELSE Exacts(conf, 0)
Step == /\ time < conf.nt /\ time' = time + 1 /\ UNCHANGED conf
        /\ val' = SolveIt(InnerMat(conf), [m \in 1..Inner(conf) |-> InnerRight(conf, time + 1, val, m)])
Next == Step
Spec == Init /\ [][Next]_vars

StaysExact == val = Exacts(conf, time)
RECURSIVE SumPairs(_, _)
SumPairs(S, f) == IF S = {} THEN Zero ELSE LET z == CHOOSE z \in S : TRUE IN Add(f[z], SumPairs(S \ {z}, f))
WholeSystem == \A n \in 1..Count(conf) : LET q == Equation(conf, n) IN SumPairs(q, [z \in q |-> Mul(z[2], Exact(conf, z[1]))]) = RightSide(conf, n)
\* symmetric, off-diagonal entries negative, rows sum to at least the time part, some row to more: positive definite
Definite == LET A == InnerMat(conf) n == Inner(conf) S(i) == SumTo(A[i], n) IN
    /\ A = MTrans(A) /\ \A i, j \in 1..n : i # j => Leq(A[i][j], Zero)
    /\ \A i \in 1..n : Leq(Ft(conf), S(i))
    /\ \E i \in 1..n : Less(Ft(conf), S(i))
\* in the whole system every equation uses the rim, earlier times and its own time only
Causal == \A n \in 1..Count(conf) : \A z \in Equation(conf, n) : TimeOf(conf, z[1]) \in {TimeOf(conf, n), TimeOf(conf, n) - 1}
=============================================================================
