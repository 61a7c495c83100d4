------------------------------ MODULE DofModel ------------------------------
(* prepareMesh of the polynomial shape functions, element by element and     *)
(* edge by edge as in the code, on every linked mesh of up to `ne` triangles *)
(* over `nv` vertices; checked against Prep1 and Prep2 of MeshSpec.          *)
EXTENDS MeshSpec
CONSTANTS nv, ne, Order
VARIABLES B, D, S, k, ph         \* B: before, D: being prepared
vars == <<B, D, S, k, ph>>
V == 0..(nv - 1)
Tri == {t \in V \X V \X V : Cardinality({t[1], t[2], t[3]}) = 3}
\* coordinates: no two vertices and no two midpoints of different edges agree
At(v) == <<N(2 ^ v), N(3 ^ v)>>
Base(es) ==
    LET F == SetToSeq(AllFaces(es))
        rec(x) == LET f == F[x] a == CHOOSE v \in f : TRUE h == Having(es, f) i == CHOOSE e \in h : TRUE
                  IN [v |-> <<a, CHOOSE v \in f : v # a>>, d |-> <<>>,
                      e |-> <<i - 1, IF h = {i} THEN -1 ELSE (CHOOSE e \in h : e # i) - 1>>]
        idx(f) == CHOOSE x \in 1..Len(F) : F[x] = f
    IN [vs |-> [x \in 1..nv |-> [g |-> x - 1, f |-> 0, p |-> At(x - 1), e |-> SetToSeq({i - 1 : i \in {j \in 1..Len(es) : (x - 1) \in Triple(es[j])}})]],
        es |-> [i \in 1..Len(es) |-> [v |-> es[i], d |-> <<>>, n |-> [j \in 1..3 |-> idx(FaceOf(es[i], j)) - 1]]],
        gs |-> [x \in 1..Len(F) |-> rec(x)]]
Init == /\ \E n \in 1..ne : \E r \in [1..n -> Tri] : /\ r[1] \in {<<0, 1, 2>>, <<2, 1, 0>>}
                                                      /\ ~ TooMany(r)
                                                      /\ B = Base(r)
        /\ D = B /\ S = 1 /\ k = 1 /\ ph = "phys"
\* the physical nodes: those of the element, and those of its edges where they have none yet
Fill(g) == IF g.d = <<>> THEN [g EXCEPT !.d = g.v] ELSE g
Phys == /\ ph = "phys"
        /\ D' = [D EXCEPT !.es[S].d = D.es[S].v,
                          !.gs = [x \in 1..Len(D.gs) |-> IF (x - 1) \in Elts(D.es[S].n) THEN Fill(D.gs[x]) ELSE D.gs[x]]]
        /\ IF S < Len(D.es) THEN S' = S + 1 /\ UNCHANGED ph ELSE S' = 1 /\ ph' = IF Order = 2 THEN "mid" ELSE "end"
        /\ UNCHANGED <<B, k>>
EdgeAt == <<3, 1, 2>>
Mids == /\ ph = "mid"
        /\ LET x == D.es[S].n[EdgeAt[k]] + 1 g == D.gs[x] IN
           IF Len(g.d) = 3
           THEN D' = [D EXCEPT !.vs[g.d[3] + 1].e = Append(@, S - 1), !.es[S].d = Append(@, g.d[3])]
           ELSE LET m == Len(D.vs)
                    v == [g |-> m, f |-> 2 + (IF -1 \in Elts(g.e) THEN 1 ELSE 0), p |-> Mid(D.vs[g.v[1] + 1].p, D.vs[g.v[2] + 1].p), e |-> <<S - 1>>]
                IN D' = [D EXCEPT !.vs = Append(@, v), !.es[S].d = Append(@, m), !.gs[x].d = Append(@, m)]
        /\ IF k < 3 THEN k' = k + 1 /\ UNCHANGED <<S, ph>>
           ELSE k' = 1 /\ IF S < Len(D.es) THEN S' = S + 1 /\ UNCHANGED ph ELSE ph' = "end" /\ UNCHANGED S
        /\ UNCHANGED B
Next == Phys \/ Mids
Spec == Init /\ [][Next]_vars

Kept == /\ SubSeq(D.vs, 1, nv) = B.vs
        /\ \A i \in 1..Len(B.es) : D.es[i].v = B.es[i].v /\ D.es[i].n = B.es[i].n
        /\ \A x \in 1..Len(B.gs) : D.gs[x].v = B.gs[x].v /\ D.gs[x].e = B.gs[x].e
Prepared == ph = "end" => IF Order = 1 THEN Len(D.vs) = nv /\ Prep1(D) ELSE Prep2(B, D)
\* a new vertex is made only for an edge that has none, and it belongs to one edge
OnePerEdge == /\ Len(D.vs) - nv = Cardinality({x \in 1..Len(D.gs) : Len(D.gs[x].d) = 3})
              /\ \A x \in 1..Len(D.gs) : Len(D.gs[x].d) <= 3
\* both elements at an edge agree about its midpoint
Shared == ph = "end" /\ Order = 2 => \A x \in 1..Len(D.gs) : \A i \in ElemsOfEdge(D.gs[x]) : D.gs[x].d[3] \in Elts(D.es[i + 1].d)
=============================================================================
