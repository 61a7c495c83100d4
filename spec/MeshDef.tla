------------------------------ MODULE MeshDef ------------------------------
(* Two-dimensional simplicial complexes and what a linked mesh looks like.   *)
(* es: sequence of triples of vertices.  A dump D of the implementation has  *)
(* vs (vertices), es (elements), gs (edges); references are indices from 0,  *)
(* -1 for none, -2 for something that is not in the mesh.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elts(s) == {s[i] : i \in 1..Len(s)}
Triple(t) == {t[1], t[2], t[3]}
FaceOf(t, j) == Triple(t) \ {t[j]}
AllFaces(es) == UNION {{FaceOf(es[i], j) : j \in 1..3} : i \in 1..Len(es)}
Having(es, f) == {i \in 1..Len(es) : f \subseteq Triple(es[i])}
TooMany(es) == \E f \in AllFaces(es) : Cardinality(Having(es, f)) > 2
NoDup(s) == Cardinality(Elts(s)) = Len(s)

\* every vertex lists exactly its elements
VertexLists(D) == \A v \in 1..Len(D.vs) :
    /\ NoDup(D.vs[v].e)
    /\ Elts(D.vs[v].e) = {i - 1 : i \in {k \in 1..Len(D.es) : (v - 1) \in Elts(D.es[k].v)}}
Numbered(D) == \A v \in 1..Len(D.vs) : D.vs[v].g = v - 1
ElemsOfEdge(g) == {x \in Elts(g.e) : x # -1}
\* elements and edges refer to each other exactly as the complex demands
Linked(D) ==
    LET es == TLCEval([i \in 1..Len(D.es) |-> D.es[i].v])
        face == TLCEval([k \in 1..Len(D.gs) |-> Elts(D.gs[k].v)])
    IN /\ \A k \in 1..Len(D.gs) : Len(D.gs[k].v) = 2 /\ Cardinality(face[k]) = 2
       /\ Cardinality(Elts(face)) = Len(D.gs)
       /\ Elts(face) = AllFaces(es)
       /\ \A k \in 1..Len(D.gs) : /\ D.gs[k].e[1] # D.gs[k].e[2]
                                  /\ ElemsOfEdge(D.gs[k]) = {i - 1 : i \in Having(es, face[k])}
       /\ \A i \in 1..Len(D.es) : \A j \in 1..3 : LET x == D.es[i].n[j] IN
             x \in 0..(Len(D.gs) - 1) /\ face[x + 1] = FaceOf(es[i], j)
BoundaryVertices(es) == UNION {f \in AllFaces(es) : Cardinality(Having(es, f)) = 1}
=============================================================================
