----------------------------- MODULE OrderTrace -----------------------------
(* Recorded orderings and permutations (indices logged from 0).              *)
EXTENDS Order, LinAlg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1
Reset == Is("reset")
Up(p) == [i \in 1..Len(p) |-> p[i] + 1]
Rev(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]

\* m: 0/1 pattern as rows
CM == Is("cm") /\ LET n == Len(Ev.m)
                      adj == {t \in (1..n) \X (1..n) : t[1] # t[2] /\ Ev.m[t[1]][t[2]] = 1}
                      deg == TLCEval([i \in 1..n |-> Cardinality({j \in 1..n : Ev.m[i][j] = 1})])
                      sym == \A t \in adj : <<t[2], t[1]>> \in adj IN
    /\ Ev.exc = "ok" /\ Ev.same
    /\ IsPermOf(Up(Ev.o), n) /\ Ev.r = Rev(Ev.o)
    /\ (sym => CuthillMcKee(adj, deg, Up(Ev.o), n)) = TRUE
NotSq == Is("notsquare") /\ \A i \in 1..Len(Ev.exc) : Ev.exc[i] = "NotSquare"
\* inverse, permutation matrix, permuted matrix and vector, and back again
Perm == Is("perm") /\ LET p == Up(Ev.p) n == Len(p) IN
    /\ \A i \in 1..n : Up(Ev.inv)[p[i]] = i
    /\ Len(Ev.inv) = n
    /\ Ev.pm = [i \in 1..n |-> [j \in 1..n |-> IF p[i] = j THEN One ELSE Zero]]
    /\ Ev.a2 = [i \in 1..n |-> [j \in 1..n |-> Ev.a[p[i]][p[j]]]]
    /\ Len(Ev.v2) = n /\ \A i \in 1..n : Ev.v2[p[i]] = Ev.v[i]
    /\ Ev.aback = Ev.a /\ Ev.vback = Ev.v /\ Ev.same
Bad == Is("bad") /\ Ev.exc = (IF Ev.k = "vec" THEN (IF Ev.n = Ev.m THEN "ok" ELSE "VectorSizeMismatch")
                              ELSE IF Ev.r # Ev.c THEN "NotSquare" ELSE IF Ev.r # Ev.m THEN "MatrixMulMismatch" ELSE "ok")
Next == Reset \/ CM \/ NotSq \/ Perm \/ Bad
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
