------------------------------ MODULE OrderBig ------------------------------
(* Breadth-first orders and permutations of large systems (C15), stated so   *)
(* that checking them takes linear time.  Everything is logged from 0.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1
Reset == Is("reset")
\* q is the inverse of p (hence both are permutations of 0..n-1)
InvOf(p, q, n) == Len(p) = n /\ Len(q) = n /\ \A i \in 1..n : p[i] \in 0..(n - 1) /\ q[p[i] + 1] = i - 1
\* a[i]: the neighbours of row i - 1, deg: the entries of each row (with the diagonal entry), o: the order, at: the place of each row
CMOk == LET n == Ev.n a == Ev.a deg == Ev.deg o == Ev.o at == Ev.at IN
    /\ Ev.exc = "ok" /\ Ev.same /\ InvOf(o, at, n)
    /\ Len(Ev.r) = n /\ \A i \in 1..n : Ev.r[i] = o[n + 1 - i]
    \* place (from 1) of the first numbered neighbour, 0: none before
    /\ LET par == TLCEval([i \in 1..n |-> FoldLeft(LAMBDA m, j : IF at[j + 1] + 1 < i /\ (m = 0 \/ at[j + 1] + 1 < m) THEN at[j + 1] + 1 ELSE m, 0, a[o[i] + 1])])
           D(i) == deg[o[i] + 1]
           roots == {i \in 1..n : par[i] = 0}
       IN /\ \A i \in roots : \A k \in i..n : D(i) <= D(k) /\ (par[k] = 0 \/ par[k] >= i)
          /\ \A i \in 2..n : (par[i] # 0 /\ par[i - 1] # 0) => \/ par[i - 1] < par[i]
                                                               \/ par[i - 1] = par[i] /\ D(i - 1) <= D(i)
CM == Is("cm") /\ CMOk = TRUE
PermVOk == LET p == Ev.p n == Len(p) IN
    /\ InvOf(p, Ev.inv, n)
    /\ Len(Ev.v2) = n /\ \A i \in 1..n : Ev.v2[p[i] + 1] = Ev.v[i]
    /\ Ev.vback = Ev.v /\ Ev.same
    /\ Ev.mat => Len(Ev.pr) = n /\ Len(Ev.pc) = n /\ \A i \in 1..n : Ev.pr[i] = i - 1 /\ Ev.pc[i] = p[i] /\ Ev.pv[i] = 1
PermV == Is("permv") /\ PermVOk = TRUE
PermMOk == LET p == Ev.p n == Len(p) IN
    /\ Ev.back /\ Ev.same /\ Len(Ev.a2) = n
    /\ \A i \in 1..n : LET r == Ev.a[p[i] + 1] s == Ev.a2[i] IN
         Len(r) = Len(s) /\ \A k \in 1..Len(s) : \E m \in 1..Len(r) : r[m][1] = p[s[k][1] + 1] /\ r[m][2] = s[k][2]
PermM == Is("permm") /\ PermMOk = TRUE
Next == Reset \/ CM \/ PermV \/ PermM
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
