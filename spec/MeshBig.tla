------------------------------ MODULE MeshBig ------------------------------
(* Meshes with more than 65536 vertices.  Dumps are columns: vp, vg, vf, ve  *)
(* position, number, flags and elements of the vertices; ev, ep, en, ed      *)
(* vertices, corner positions, edges and nodes of the elements; gv, ge, gd   *)
(* vertices, elements and nodes of the edges.  All numbers whole (anything   *)
(* else is recorded as Bad), references from 0 (-1 none, -2 unknown).        *)
(* Every condition is linear in the size of the dump.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, src, lab     \* src: the event that describes the mesh, lab: the later one with its flags (0: none)
vars == <<l, src, lab>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1 /\ src = 0 /\ lab = 0
Same == UNCHANGED <<src, lab>>
Keep == src' = l /\ lab' = 0
given == Trace[src]
last == IF lab = 0 THEN Trace[src].d ELSE [Trace[src].d EXCEPT !.vf = Trace[lab].vf]
Reset == Is("reset") /\ src' = 0 /\ lab' = 0

Elts(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(Elts(s)) = Len(s)
Face(t, j) == Elts(t) \ {t[j]}
Owners(D, k) == Elts(D.ge[k]) \ {-1}

Numbered(D) == \A v \in 1..Len(D.vg) : D.vg[v] = v - 1
VertexLists(D) == LET ne == Len(D.ev) IN
    /\ \A v \in 1..Len(D.ve) : NoDup(D.ve[v]) /\ \A x \in Elts(D.ve[v]) : x \in 0..(ne - 1) /\ (v - 1) \in Elts(D.ev[x + 1])
    /\ \A e \in 1..ne : \A j \in 1..3 : (e - 1) \in Elts(D.ve[D.ev[e][j] + 1])
Linked(D) == LET ne == Len(D.ev) ng == Len(D.gv) IN
    /\ \A k \in 1..ng : /\ Len(D.gv[k]) = 2 /\ D.gv[k][1] # D.gv[k][2] /\ Len(D.ge[k]) = 2 /\ D.ge[k][1] # D.ge[k][2]
                        /\ Owners(D, k) # {}
                        /\ \A x \in Owners(D, k) : x \in 0..(ne - 1) /\ Elts(D.gv[k]) \subseteq Elts(D.ev[x + 1])
    /\ \A e \in 1..ne : \A j \in 1..3 : LET x == D.en[e][j] IN
          x \in 0..(ng - 1) /\ Elts(D.gv[x + 1]) = Face(D.ev[e], j) /\ (e - 1) \in Owners(D, x + 1)
    \* no edge twice
    /\ Cardinality({Elts(D.gv[k]) : k \in 1..ng}) = ng
\* the mesh of these points and triangles
MeshOf(D, p, t) ==
    /\ D.vp = p /\ D.ev = t
    /\ \A e \in 1..Len(t) : D.ep[e] = p[t[e][1] + 1] \o p[t[e][2] + 1] \o p[t[e][3] + 1]
    /\ Numbered(D) /\ VertexLists(D) /\ Linked(D)
Sound(D) == Len(D.vg) = Len(D.vp) /\ Len(D.vf) = Len(D.vp) /\ Len(D.ve) = Len(D.vp) /\ Len(D.ep) = Len(D.ev) /\ Len(D.en) = Len(D.ev) /\ Len(D.ed) = Len(D.ev)

\* points and triangles of the next mesh
Give == Is("give") /\ Keep
\* linking: the mesh of them
SetupOk == Ev.exc = "ok" /\ Sound(Ev.d) /\ MeshOf(Ev.d, given.p, given.t) /\ Ev.d.vf = given.f
Setup == Is("setup") /\ SetupOk = TRUE /\ Keep
\* a loader: flags are not demanded
LoadOk == Ev.exc = "ok" /\ Sound(Ev.d) /\ MeshOf(Ev.d, given.p, given.t)
Load == Is("load") /\ LoadOk = TRUE /\ Keep
\* a loader that numbers the vertices in the order of first use: u = where each comes first
UsedOk == LET D == Ev.d m == Len(given.t)
              C(t, i) == t[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]
          IN /\ Ev.exc = "ok" /\ Sound(D) /\ Len(D.ev) = m /\ Len(Ev.u) = Len(D.vp)
             /\ \A i \in 1..(3 * m) : C(D.ev, i) \in 0..(Len(D.vp) - 1) /\ D.vp[C(D.ev, i) + 1] = given.p[C(given.t, i) + 1] /\ Ev.u[C(D.ev, i) + 1] <= i
             /\ \A k \in 1..Len(Ev.u) : C(D.ev, Ev.u[k]) = k - 1
             /\ \A k \in 2..Len(Ev.u) : Ev.u[k - 1] < Ev.u[k]
             /\ Cardinality(Elts(D.vp)) = Len(D.vp)
             /\ MeshOf(D, D.vp, D.ev)
Used == Is("used") /\ UsedOk = TRUE /\ Keep
\* an edge of one of the elements of v that ends in v and has one element only (the mesh is linked)
OnBoundary(D, v) == \E x \in Elts(D.ve[v]) : \E j \in 1..3 : D.ev[x + 1][j] # v - 1 /\ Cardinality(Owners(D, D.en[x + 1][j] + 1)) = 1
BoundOk == LET D == last IN Ev.vf = [v \in 1..Len(D.vf) |-> IF D.vf[v] % 2 = 0 /\ OnBoundary(D, v) THEN D.vf[v] + 1 ELSE D.vf[v]] /\ Ev.rest
Bound == Is("bound") /\ BoundOk = TRUE /\ lab' = l /\ UNCHANGED src

\* six nodes per element (C22): the corners and the midpoints of 0-1, 1-2, 2-0, shared along the edges
PrepOk == LET D == Ev.d B == last n0 == Len(B.vp) ng == Len(B.gv) ne == Len(B.ev) nv == Len(D.vp) IN
    /\ Sound(D) /\ D.ev = B.ev /\ D.en = B.en /\ D.ep = B.ep /\ D.gv = B.gv /\ D.ge = B.ge /\ Numbered(D)
    /\ nv = (IF Ev.order = 2 THEN n0 + ng ELSE n0)
    /\ \A v \in 1..n0 : D.vp[v] = B.vp[v] /\ D.vf[v] = B.vf[v] /\ D.ve[v] = B.ve[v]
    /\ \A e \in 1..ne : Len(D.ed[e]) = (IF Ev.order = 2 THEN 6 ELSE 3) /\ \A j \in 1..3 : D.ed[e][j] = D.ev[e][j]
    /\ Ev.order = 2 =>
        /\ \A k \in 1..ng : LET g == D.gd[k] IN
              /\ Len(g) = 3 /\ {g[1], g[2]} = Elts(D.gv[k]) /\ g[3] \in n0..(nv - 1)
              /\ \A c \in 1..2 : 2 * D.vp[g[3] + 1][c] = D.vp[g[1] + 1][c] + D.vp[g[2] + 1][c]
              /\ NoDup(D.ve[g[3] + 1]) /\ Elts(D.ve[g[3] + 1]) = Owners(D, k)
              /\ D.vf[g[3] + 1] = (IF Cardinality(Owners(D, k)) = 1 THEN 3 ELSE 2)
        /\ Cardinality({D.gd[k][3] : k \in 1..ng}) = ng
        /\ \A e \in 1..ne : \A m \in 1..3 :
              \* the edge opposite the third corner
              D.ed[e][3 + m] = D.gd[D.en[e][((m + 1) % 3) + 1] + 1][3]
Prep == Is("prep") /\ Ev.exc = "ok" /\ PrepOk = TRUE /\ Keep

\* validation of a linked mesh with one flaw (C18)
Blame(k) == CASE k = "none" -> "ok"
              [] k = "number" -> "InvalidVertexIndex"
              [] k = "isolated" -> "IsolatedVertex"
              [] k = "foreign" -> "MalformedVertexElementConnection"
              [] k = "moved" -> "IncompleteElement"
              [] k = "flat" -> "ZeroVolumeSimplex"
              [] k = "unlinked" -> "MalformedElementNeighborConnection"
Valid == Is("valid") /\ Ev.exc = Blame(Ev.k) /\ Same

\* grids (C19) with cells of size 2 x 2: the lower left corner of the cell of a triangle and the corner it leaves out
GridOk == LET D == Ev.d nx == Ev.n[1] ny == Ev.n[2] ox == Ev.off[1] oy == Ev.off[2]
              cx == [v \in 1..Len(D.vp) |-> (D.vp[v][1] - ox) \div 2]
              cy == [v \in 1..Len(D.vp) |-> (D.vp[v][2] - oy) \div 2]
              Least(s) == CHOOSE x \in Elts(s) : \A y \in Elts(s) : x <= y
              X(e) == [j \in 1..3 |-> cx[D.ev[e][j] + 1]]
              Y(e) == [j \in 1..3 |-> cy[D.ev[e][j] + 1]]
              cells == TLCEval([e \in 1..Len(D.ev) |-> <<Least(X(e)), Least(Y(e))>>])
              Corners(e) == {<<X(e)[j] - cells[e][1], Y(e)[j] - cells[e][2]>> : j \in 1..3}
              Unit == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>}
              gone == TLCEval([e \in 1..Len(D.ev) |-> Unit \ Corners(e)])
              halves == {<<cells[e], gone[e]>> : e \in 1..Len(D.ev)}
          IN /\ Ev.exc = "ok" /\ Sound(D)
             /\ Len(D.vp) = (nx + 1) * (ny + 1) /\ Len(D.ev) = 2 * nx * ny
             /\ \A v \in 1..Len(D.vp) : /\ D.vp[v] = <<ox + 2 * cx[v], oy + 2 * cy[v]>> /\ cx[v] \in 0..nx /\ cy[v] \in 0..ny
                                        /\ D.vf[v] = (IF cx[v] \in {0, nx} \/ cy[v] \in {0, ny} THEN 1 ELSE 0)
             /\ Cardinality(Elts(D.vp)) = Len(D.vp)
             /\ \A e \in 1..Len(D.ev) : Cardinality(gone[e]) = 1 /\ Corners(e) \subseteq Unit
             /\ Cardinality(halves) = Len(D.ev) /\ Cardinality(Elts(cells)) = nx * ny
             /\ \A e \in 1..Len(D.ev) : LET m == CHOOSE m \in gone[e] : TRUE IN <<cells[e], {<<1 - m[1], 1 - m[2]>>}>> \in halves
             /\ \A e \in 1..Len(D.ev) : D.ep[e] = D.vp[D.ev[e][1] + 1] \o D.vp[D.ev[e][2] + 1] \o D.vp[D.ev[e][3] + 1] /\ Ev.vol[e] = 2
             /\ Numbered(D) /\ VertexLists(D) /\ Linked(D)
             /\ Ev.valid = "ok"
Grid == Is("grid") /\ GridOk = TRUE /\ Keep

\* exports (C26): the texts of the arrays as whole numbers
Flat(ss, k) == [i \in 1..(k * Len(ss)) |-> ss[((i - 1) \div k) + 1][((i - 1) % k) + 1]]
Pad(p) == [i \in 1..(3 * Len(p)) |-> IF i % 3 = 0 THEN 0 ELSE p[((i - 1) \div 3) + 1][((i - 1) % 3) + 1]]
Bit(f, b) == (f \div b) % 2
VtkOk == LET D == last nv == Len(D.vp) ne == Len(D.ev) k == IF Ev.order = 2 THEN 6 ELSE 3 A == Ev.a IN
    /\ Ev.wf /\ Ev.np = ToString(nv) /\ Ev.nc = ToString(ne)
    /\ DOMAIN A = {"Points", "connectivity", "offsets", "types", "p", "BoundaryLabel", "ImplicitLabel", "c", "ElementDeterminant"}
    /\ A.Points = Pad(D.vp)
    /\ A.connectivity = Flat([e \in 1..ne |-> [j \in 1..k |-> D.vg[D.ed[e][j] + 1]]], k)
    /\ A.offsets = [i \in 1..ne |-> i * k]
    /\ A.types = [i \in 1..ne |-> IF Ev.order = 2 THEN 22 ELSE 5]
    /\ A.p = [i \in 1..nv |-> i % 977] /\ A.c = [i \in 1..ne |-> i % 1009]
    /\ A.BoundaryLabel = [v \in 1..nv |-> Bit(D.vf[v], 1)]
    /\ A.ImplicitLabel = [v \in 1..nv |-> Bit(D.vf[v], 2)]
    /\ A.ElementDeterminant = [e \in 1..ne |-> LET q == D.ep[e] IN (q[3] - q[1]) * (q[6] - q[2]) - (q[5] - q[1]) * (q[4] - q[2])]
Vtk == Is("vtk") /\ VtkOk = TRUE /\ Same

Next == Reset \/ Give \/ Setup \/ Load \/ Used \/ Bound \/ Prep \/ Valid \/ Grid \/ Vtk
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
