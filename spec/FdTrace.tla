------------------------------- MODULE FdTrace -------------------------------
(* Recorded finite difference computations against Fd.tla: the systems that  *)
(* were put together with the matrix operations, the solutions.              *)
EXTENDS Fd, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, src, red       \* the configuration's event (0: none), whether the inner system was put together
vars == <<l, src, red>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1 /\ src = 0 /\ red = FALSE
C == Trace[src]
Reset == Is("reset") /\ src' = 0 /\ red' = FALSE
Conf == Is("fd") /\ src' = l /\ red' = FALSE
Pairs(row) == {row[m] : m \in 1..Len(row)}
WholeOk == /\ Len(Ev.a) = Count(C) /\ Len(Ev.b) = Count(C)
           /\ \A n \in 1..Count(C) : Cardinality(Pairs(Ev.a[n])) = Len(Ev.a[n]) /\ Pairs(Ev.a[n]) = Equation(C, n) /\ Ev.b[n] = RightSide(C, n)
Whole == Is("whole") /\ src # 0 /\ WholeOk = TRUE /\ UNCHANGED <<src, red>>
InnerOk == Len(Ev.a) = Inner(C) /\ \A m \in 1..Inner(C) : Cardinality(Pairs(Ev.a[m])) = Len(Ev.a[m]) /\ Pairs(Ev.a[m]) = InnerEquation(C, m)
InnerSys == Is("inner") /\ src # 0 /\ InnerOk = TRUE /\ red' = TRUE /\ UNCHANGED src
\* the whole system solved at once
SolveOk == Ev.exc = "ok" /\ Ev.x = [n \in 1..Count(C) |-> Exact(C, n)]
Solve == Is("solve") /\ src # 0 /\ SolveOk = TRUE /\ UNCHANGED <<src, red>>
\* a step to time Ev.t with the inner system
StepOk == Ev.exc = "ok" /\ Ev.x = [m \in 1..Inner(C) |-> N(Value(C, Ev.t, ICol(C, m), IRow(C, m)))]
Step == Is("step") /\ src # 0 /\ red /\ StepOk = TRUE /\ UNCHANGED <<src, red>>
\* a x - b, a left-multiplied, sum and scalar product of the solution
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE SumN(f, n - 1) + f[n]
UseOk == LET v == TLCEval([n \in 1..Count(C) |-> Value(C, TimeOf(C, n), ColOf(C, n), RowOf(C, n))]) IN
    /\ Ev.r = [n \in 1..Count(C) |-> Zero] /\ Ev.r2 = Ev.r /\ Ev.sum = N(SumN(v, Count(C))) /\ Ev.diag = [n \in 1..Count(C) |-> LET z == CHOOSE z \in Equation(C, n) : z[1] = n IN z[2]]
    /\ Ev.dot = N(SumN([n \in 1..Count(C) |-> v[n] * (n % 7)], Count(C)))
Use == Is("use") /\ src # 0 /\ UseOk = TRUE /\ UNCHANGED <<src, red>>
Next == Reset \/ Conf \/ Whole \/ InnerSys \/ Solve \/ Step \/ Use
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
