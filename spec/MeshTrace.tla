----------------------------- MODULE MeshTrace -----------------------------
(* Recorded life of one mesh.  `els`: triples of vertices in order,          *)
(* `flags`: flags of the vertices, `last`: the dump after the last set-up.   *)
EXTENDS MeshSpec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, els, flags, pos, last, fresh, broken
vars == <<l, els, flags, pos, last, fresh, broken>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
NoDump == [vs |-> <<>>, es |-> <<>>, gs |-> <<>>]
Init == l = 1 /\ els = <<>> /\ flags = <<>> /\ pos = <<>> /\ last = NoDump /\ fresh = FALSE /\ broken = FALSE
Same == UNCHANGED <<els, flags, pos, last, fresh, broken>>
Reset == Is("reset") /\ els' = <<>> /\ flags' = <<>> /\ pos' = <<>> /\ last' = NoDump /\ fresh' = FALSE /\ broken' = FALSE

Agrees(D) == /\ [k \in 1..Len(D.es) |-> D.es[k].v] = els
             /\ Len(D.vs) = Len(flags)
             /\ \A k \in 1..Len(D.vs) : D.vs[k].p = pos[k]
             /\ \A k \in 1..Len(D.es) : \A j \in 1..3 : D.es[k].p[j] = pos[D.es[k].v[j] + 1]
             /\ Numbered(D) /\ VertexLists(D)

\* vertices (with flags and positions) and elements handed over
Give == /\ Is("give") /\ ~ broken
        /\ flags' = flags \o Ev.f /\ pos' = pos \o Ev.p /\ els' = els \o Ev.t /\ fresh' = FALSE
        /\ UNCHANGED <<last, broken>>
Setup == /\ Is("setup") /\ ~ broken
         /\ IF TooMany(els) THEN Ev.exc = "TooManySharedFaces" /\ broken' = TRUE /\ UNCHANGED <<last, fresh>>
            ELSE /\ Ev.exc = "ok" /\ Agrees(Ev.d) = TRUE /\ Linked(Ev.d) = TRUE /\ [k \in 1..Len(flags) |-> Ev.d.vs[k].f] = flags
                 /\ fresh => Ev.d = last
                 /\ last' = Ev.d /\ fresh' = TRUE /\ UNCHANGED broken
         /\ UNCHANGED <<els, flags, pos>>
\* flag bit 1: boundary
WithBit(f) == IF f % 2 = 1 THEN f ELSE f + 1
Bound == /\ Is("bound") /\ fresh
         /\ LET B == BoundaryVertices(els) IN flags' = [k \in 1..Len(flags) |-> IF (k - 1) \in B THEN WithBit(flags[k]) ELSE flags[k]]
         /\ [k \in 1..Len(flags) |-> Ev.d.vs[k].f] = flags'
         /\ Ev.d.es = last.es /\ Ev.d.gs = last.gs
         /\ \A k \in 1..Len(Ev.d.vs) : [Ev.d.vs[k] EXCEPT !.f = 0] = [last.vs[k] EXCEPT !.f = 0]
         /\ last' = Ev.d /\ UNCHANGED <<els, pos, fresh, broken>>

\* the caller puts the elements of a linked mesh into another order: everything still refers to the same elements
Reorder == /\ Is("reorder") /\ fresh
           /\ els' = [k \in 1..Len(els) |-> els[Ev.p[k] + 1]]
           /\ Ev.d.vs # <<>> /\ [k \in 1..Len(Ev.d.es) |-> Ev.d.es[k].v] = els' /\ Linked(Ev.d) = TRUE /\ VertexLists(Ev.d) = TRUE /\ Numbered(Ev.d) = TRUE
           /\ last' = Ev.d /\ UNCHANGED <<flags, pos, fresh, broken>>

(* ------------------------------------------------------------- C22 *)
PMesh == /\ Is("pmesh") /\ fresh /\ Ev.exc = "ok"
         \* what was there stays
         /\ Len(Ev.d.vs) >= Len(last.vs) /\ SubSeq(Ev.d.vs, 1, Len(last.vs)) = last.vs
         /\ Len(Ev.d.es) = Len(last.es) /\ \A i \in 1..Len(last.es) : Ev.d.es[i].v = last.es[i].v /\ Ev.d.es[i].n = last.es[i].n /\ Ev.d.es[i].p = last.es[i].p
         /\ Len(Ev.d.gs) = Len(last.gs) /\ \A k \in 1..Len(last.gs) : Ev.d.gs[k].v = last.gs[k].v /\ Ev.d.gs[k].e = last.gs[k].e
         /\ IF Ev.order = 1 THEN Len(Ev.d.vs) = Len(last.vs) /\ Prep1(Ev.d) = TRUE ELSE Prep2(last, Ev.d) = TRUE
         /\ Ev.valid = "ok"
         /\ broken' = TRUE /\ UNCHANGED <<els, flags, pos, last, fresh>>

(* ------------------------------------------------------------- C18 *)
Validate == /\ Is("validate")
            /\ Ev.after = Ev.d
            /\ LET F == Faults(Ev.d) IN IF F = {} THEN Ev.exc = "ok" ELSE Ev.exc \in F
            /\ Same

(* ------------------------------------------------------------- C19 *)
CubeOk == LET nx == Ev.n[1] ny == Ev.n[2] D == Ev.d IN
   /\ IF nx < 1 \/ ny < 1 THEN Ev.exc = "InvalidElementCount"
      ELSE LET at(i, j) == <<Add(Ev.off[1], Mul(Ev.size[1], Frac(i, nx))), Add(Ev.off[2], Mul(Ev.size[2], Frac(j, ny)))>>
               P == TLCEval([k \in 1..Len(D.vs) |-> D.vs[k].p])
               grid == {at(i, j) : i \in 0..nx, j \in 0..ny}
               \* which grid corner a vertex is
               vat == TLCEval([c \in (0..nx) \X (0..ny) |-> (CHOOSE k \in 1..Len(P) : P[k] = at(c[1], c[2])) - 1])
               T == TLCEval([e \in 1..Len(D.es) |-> Triple(D.es[e].v)])
               cell(i, j) == {vat[<<i, j>>], vat[<<i + 1, j>>], vat[<<i, j + 1>>], vat[<<i + 1, j + 1>>]}
           IN /\ Ev.exc = "ok"
              /\ Len(D.vs) = (nx + 1) * (ny + 1) /\ Elts(P) = grid
              /\ Len(D.es) = 2 * nx * ny
              /\ \A i \in 0..(nx - 1) : \A j \in 0..(ny - 1) :
                    LET S == {e \in 1..Len(T) : T[e] \subseteq cell(i, j)} IN
                    /\ Cardinality(S) = 2
                    /\ UNION {T[e] : e \in S} = cell(i, j)
                    /\ LET both == {v \in cell(i, j) : \A e \in S : v \in T[e]} IN
                       both = {vat[<<i, j>>], vat[<<i + 1, j + 1>>]} \/ both = {vat[<<i + 1, j>>], vat[<<i, j + 1>>]}
              /\ \A e \in 1..Len(D.es) : \A j \in 1..3 : D.es[e].p[j] = P[D.es[e].v[j] + 1]
              /\ \A c \in (0..nx) \X (0..ny) : D.vs[vat[c] + 1].f = (IF c[1] \in {0, nx} \/ c[2] \in {0, ny} THEN 1 ELSE 0)
              /\ Numbered(D) /\ VertexLists(D) /\ Linked(D)
              /\ \A e \in 1..Len(D.es) : Ev.vol[e] = Mul(Frac(1, 2 * nx * ny), Mul(Ev.size[1], Ev.size[2]))
              /\ Ev.valid = "ok"
\* (as a value: TLC would follow every disjunct of an action as a separate step)
Cube == Is("cube") /\ CubeOk = TRUE /\ Same

Next == Reset \/ Give \/ Setup \/ Bound \/ Reorder \/ PMesh \/ Validate \/ Cube
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
