------------------------------ MODULE MeshSpec ------------------------------
(* What the preparation of degrees of freedom does to a linked mesh (B to D) *)
(* and what is wrong with a damaged one.                                     *)
EXTENDS MeshDef, LinAlg

Mid(p, q) == <<Mul(Add(p[1], q[1]), <<1, 0, 2>>), Mul(Add(p[2], q[2]), <<1, 0, 2>>)>>
EdgeIndex(D, a, b) == CHOOSE k \in 1..Len(D.gs) : Elts(D.gs[k].v) = {a, b}
Prep1(D) == \A i \in 1..Len(D.es) : D.es[i].d = D.es[i].v
Prep2(B, D) ==
    LET n0 == Len(B.vs) ng == Len(B.gs) IN
    /\ Len(D.vs) = n0 + ng /\ Len(D.gs) = ng /\ Len(D.es) = Len(B.es)
    /\ \A k \in 1..Len(D.vs) : D.vs[k].g = k - 1
    /\ \A i \in 1..Len(D.es) : Len(D.es[i].d) = 6 /\ SubSeq(D.es[i].d, 1, 3) = D.es[i].v
    \* fourth, fifth and sixth: midpoints of the edges 0-1, 1-2, 2-0
    /\ \A i \in 1..Len(D.es) : \A m \in 1..3 :
          LET a == D.es[i].v[m] b == D.es[i].v[(m % 3) + 1] x == D.es[i].d[3 + m]
              k == EdgeIndex(D, a, b)
          IN /\ x \in n0..(n0 + ng - 1)
             /\ D.vs[x + 1].p = Mid(D.vs[a + 1].p, D.vs[b + 1].p)
             /\ Len(D.gs[k].d) = 3 /\ {D.gs[k].d[1], D.gs[k].d[2]} = {a, b} /\ D.gs[k].d[3] = x
    /\ LET mids == [k \in 1..ng |-> D.gs[k].d[3]] IN
       /\ Cardinality(Elts(mids)) = ng
       /\ \A k \in 1..ng : LET v == D.vs[mids[k] + 1] IN
             /\ NoDup(v.e) /\ Elts(v.e) = ElemsOfEdge(D.gs[k])
             /\ v.f = (IF Cardinality(ElemsOfEdge(D.gs[k])) = 1 THEN 3 ELSE 2)

InElem(D, i, v) == IF D.es[i + 1].d = <<>> THEN v \in Elts(D.es[i + 1].v) ELSE v \in Elts(D.es[i + 1].d)
Area2(p) == Sub(Mul(Sub(p[2][1], p[1][1]), Sub(p[3][2], p[1][2])), Mul(Sub(p[3][1], p[1][1]), Sub(p[2][2], p[1][2])))
Faults(D) ==
    (IF ~ Numbered(D) THEN {"InvalidVertexIndex"} ELSE {})
    \cup (IF \E k \in 1..Len(D.vs) : D.vs[k].e = <<>> THEN {"IsolatedVertex"} ELSE {})
    \cup (IF \E k \in 1..Len(D.vs) : \E j \in 1..Len(D.vs[k].e) : ~ InElem(D, D.vs[k].e[j], k - 1) THEN {"MalformedVertexElementConnection"} ELSE {})
    \cup (IF \E i \in 1..Len(D.es) : \E j \in 1..3 : \/ D.es[i].v[j] = -1
                                                     \/ D.es[i].p[j] # D.vs[D.es[i].v[j] + 1].p THEN {"IncompleteElement"} ELSE {})
    \cup (IF \E i \in 1..Len(D.es) : IsZero(Area2(D.es[i].p)) THEN {"ZeroVolumeSimplex"} ELSE {})
    \cup (IF \E i \in 1..Len(D.es) : \E j \in 1..3 : D.es[i].n[j] = -1 THEN {"MalformedElementNeighborConnection"} ELSE {})
=============================================================================
