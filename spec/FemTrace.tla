------------------------------ MODULE FemTrace ------------------------------
(* Recorded finite element computations against Fem.tla: the mesh with its   *)
(* nodes, the assembled system, the solutions of the solvers, the solution   *)
(* away from the nodes.                                                      *)
EXTENDS Fem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, src, sys       \* the events of the mesh and of the system at hand (0: none)
vars == <<l, src, sys>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1 /\ src = 0 /\ sys = 0
Reset == Is("reset") /\ src' = 0 /\ sys' = 0
M == Trace[src]
A == Trace[sys]

\* ---- the mesh: the given triangles, every node where it belongs, no node twice, the boundary nodes those of edges with one triangle
Elts(s) == {s[k] : k \in 1..Len(s)}
Corners(e) == [k \in 1..3 |-> Ev.p[Ev.t[e][k]]]
TotalSize == LET RECURSIVE F(_) F(k) == IF k = 0 THEN 0 ELSE F(k - 1) + Size(Corners(k)) IN F(Len(Ev.t))
Given == IF Ev.k = "grid"
         THEN /\ TotalSize = 2 * Ev.box[3] * Ev.box[4]
              /\ \A k \in 1..Len(Ev.p) : LET x == Ev.p[k] IN Ev.box[1] <= x[1] /\ x[1] <= Ev.box[1] + Ev.box[3] /\ Ev.box[2] <= x[2] /\ x[2] <= Ev.box[2] + Ev.box[4]
         ELSE Len(Ev.tp) = Len(Ev.t) /\ \A e \in 1..Len(Ev.t) : Ev.tp[e] = Corners(e)[1] \o Corners(e)[2] \o Corners(e)[3]
Nodes == LET nv == Cardinality(UNION {Tips(Ev.t, e) : e \in 1..Len(Ev.t)}) G == TLCEval(EdgesOf(Ev.t)) IN
    /\ \A e \in 1..Len(Ev.t) : Len(Ev.t[e]) = NodesOf(Ev.order) /\ \A k \in 1..Len(Ev.t[e]) : Ev.t[e][k] \in 1..Len(Ev.p)
    /\ Ev.order = 2 => \A e \in 1..Len(Ev.t) : \A k \in 1..3 : Ev.p[Ev.t[e][3 + k]] = Mid2(Corners(e)[Sides[k][1]], Corners(e)[Sides[k][2]])
    /\ Cardinality(Elts(Ev.p)) = Len(Ev.p)
    /\ Len(Ev.p) = nv + (IF Ev.order = 1 THEN 0 ELSE Cardinality(G))
    /\ Len(Ev.gi) = Len(Ev.p) /\ \A k \in 1..Len(Ev.gi) : Ev.gi[k] = k - 1
Rim == LET sides == {<<e, k>> : e \in 1..Len(Ev.t), k \in 1..3}
           g(x) == {Ev.t[x[1]][Sides[x[2]][1]], Ev.t[x[1]][Sides[x[2]][2]]}
           B == TLCEval(BoundaryEdges(Ev.t))
           on == TLCEval({x \in sides : g(x) \in B})
       IN UNION {g(x) : x \in on} \cup (IF Ev.order = 1 THEN {} ELSE {Ev.t[x[1]][3 + x[2]] : x \in on})
MeshOk == Ev.exc = "ok" /\ Ev.prep = "ok" /\ Nodes /\ Given /\ Elts(Ev.fx) = Rim
Mesh == Is("fem") /\ MeshOk = TRUE /\ src' = l /\ sys' = 0

\* ---- the system: entries that are not listed are zero
RowOk(i, star) ==
    LET row == Ev.a[i] Val(j) == IF \E m \in 1..Len(row) : row[m][1] = j THEN row[CHOOSE m \in 1..Len(row) : row[m][1] = j][2] ELSE Zero IN
    /\ Cardinality({row[m][1] : m \in 1..Len(row)}) = Len(row)
    /\ \A m \in 1..Len(row) : row[m][1] \in Near(M.t, star)
    /\ \A j \in Near(M.t, star) : Val(j) = Entry(M.order, M.p, M.t, star, Ev.al, Ev.c, i, j)
    /\ Ev.b[i] = Rhs(M.order, M.p, M.t, star, Ev.u, Ev.al, Ev.c, i)
AsmOk == Len(Ev.a) = Len(M.p) /\ Len(Ev.b) = Len(M.p) /\ \A i \in 1..Len(M.p) : RowOk(i, StarOf(M.t, i))
Asm == Is("asm") /\ src # 0 /\ AsmOk = TRUE /\ sys' = l /\ UNCHANGED src

\* ---- whichever way it is solved: the polynomial at the nodes
SolveOk == Ev.exc = "ok" /\ Ev.x = [i \in 1..Len(M.p) |-> N(U(A.u, M.p[i]))]
Solve == Is("solve") /\ sys # 0 /\ SolveOk = TRUE /\ UNCHANGED <<src, sys>>

\* ---- between the nodes, and its integral
SampleOk(x) ==
    LET e == x[1] la == Frac(x[2], 8) lb == Frac(x[3], 8) L == <<Sub(One, Add(la, lb)), la, lb>> q == Corner(M.p, M.t, e)
        at == [d \in 1..2 |-> Total([k \in 1..3 |-> Mul(L[k], N(q[k][d]))])] gr == GradUN(A.u, at) r == x[4]
    IN /\ r[1] = at[1] /\ r[2] = at[2] /\ r[3] = la /\ r[4] = lb
       /\ r[5] = UN(A.u, at) /\ r[6] = gr[1] /\ r[7] = gr[2]
       /\ ValueAt(M.order, M.t, e, [i \in Elts(M.t[e]) |-> N(U(A.u, M.p[i]))], L) = r[5]
PostOk == /\ \A k \in 1..Len(Ev.s) : SampleOk(Ev.s[k])
          /\ Ev.exact => Ev.w = Volume(M.order, M.p, M.t, [i \in 1..Len(M.p) |-> N(U(A.u, M.p[i]))])
Post == Is("post") /\ sys # 0 /\ PostOk = TRUE /\ UNCHANGED <<src, sys>>

Next == Reset \/ Mesh \/ Asm \/ Solve \/ Post
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
