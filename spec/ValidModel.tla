------------------------------ MODULE ValidModel ------------------------------
(* validate() in the order of its loops, on every linked mesh of up to `ne`  *)
(* triangles that cover `nv` vertices, undamaged and with every single       *)
(* damage.  It must accept exactly the meshes without a fault, and name one  *)
(* of the faults otherwise.                                                  *)
EXTENDS MeshSpec
CONSTANTS nv, ne, Damages
VARIABLES D, a, b, res, n
vars == <<D, a, b, res, n>>
V == 0..(nv - 1)
Pos == <<<<Zero, Zero>>, <<One, Zero>>, <<Zero, One>>, <<N(3), N(2)>>, <<N(-1), N(3)>>>>
Tri == {t \in V \X V \X V : Cardinality({t[1], t[2], t[3]}) = 3}
Base(es) ==
    LET F == SetToSeq(AllFaces(es)) idx(f) == CHOOSE k \in 1..Len(F) : F[k] = f
    IN [vs |-> [k \in 1..nv |-> [g |-> k - 1, p |-> Pos[k], e |-> SetToSeq({i - 1 : i \in {j \in 1..Len(es) : (k - 1) \in Triple(es[j])}})]],
        es |-> [i \in 1..Len(es) |-> [v |-> es[i], p |-> [j \in 1..3 |-> Pos[es[i][j] + 1]], d |-> <<>>, n |-> [j \in 1..3 |-> idx(FaceOf(es[i], j)) - 1]]]]
Init == /\ \E m \in 1..ne : \E r \in [1..m -> Tri] : /\ r[1] = <<0, 1, 2>> /\ ~ TooMany(r)
                                                      /\ UNION {Triple(r[i]) : i \in 1..m} = V
                                                      /\ D = Base(r)
        /\ a = "damage" /\ b = 0 /\ res = "" /\ n = 0
\* what can be wrong with a mesh, one thing at a time
Damage == /\ a = "damage" /\ n < Damages /\ n' = n + 1
          /\ \/ \E k \in 1..nv : \E g \in 0..nv : g # k - 1 /\ D' = [D EXCEPT !.vs[k].g = g]
             \/ \E k \in 1..nv : D' = [D EXCEPT !.vs[k].e = <<>>]
             \/ \E k \in 1..nv : \E i \in 0..(Len(D.es) - 1) : D' = [D EXCEPT !.vs[k].e = Append(@, i)]
             \/ \E i \in 1..Len(D.es) : \E j \in 1..3 : \E v \in V \cup {-1} : D' = [D EXCEPT !.es[i].v[j] = v]
             \/ \E i \in 1..Len(D.es) : \E j \in 1..3 : \E k \in 1..nv : D' = [D EXCEPT !.es[i].p[j] = Pos[k]]
             \/ \E i \in 1..Len(D.es) : \E j \in 1..3 : \E v \in V : D' = [D EXCEPT !.es[i].v[j] = v, !.es[i].p[j] = Pos[v + 1]]
             \/ \E i \in 1..Len(D.es) : \E j \in 1..3 : D' = [D EXCEPT !.es[i].n[j] = -1]
             \/ \E i \in 1..Len(D.es) : \E j \in 1..3 : D' = [D EXCEPT !.es[i].d = <<D.es[i].v[j]>>]
          /\ UNCHANGED <<a, b, res>>
Go == a = "damage" /\ a' = "vertex" /\ b' = 1 /\ UNCHANGED <<D, res, n>>
Found(i, v) == LET e == D.es[i + 1] IN IF e.d = <<>> THEN \E j \in 1..3 : e.v[j] = v ELSE \E j \in 1..Len(e.d) : e.d[j] = v
Vertex == /\ a = "vertex" /\ LET v == D.vs[b] IN
             IF v.g # b - 1 THEN res' = "InvalidVertexIndex" /\ a' = "end" /\ UNCHANGED b
             ELSE IF v.e = <<>> THEN res' = "IsolatedVertex" /\ a' = "end" /\ UNCHANGED b
             ELSE IF \E j \in 1..Len(v.e) : ~ Found(v.e[j], b - 1) THEN res' = "MalformedVertexElementConnection" /\ a' = "end" /\ UNCHANGED b
             ELSE /\ UNCHANGED res
                  /\ IF b < Len(D.vs) THEN b' = b + 1 /\ UNCHANGED a ELSE b' = 1 /\ a' = "element"
          /\ UNCHANGED <<D, n>>
Element == /\ a = "element" /\ LET e == D.es[b] IN
              IF \E j \in 1..3 : e.v[j] = -1 \/ D.vs[e.v[j] + 1].p # e.p[j] THEN res' = "IncompleteElement" /\ a' = "end" /\ UNCHANGED b
              ELSE IF IsZero(Area2(e.p)) THEN res' = "ZeroVolumeSimplex" /\ a' = "end" /\ UNCHANGED b
              ELSE IF \E j \in 1..3 : e.n[j] = -1 THEN res' = "MalformedElementNeighborConnection" /\ a' = "end" /\ UNCHANGED b
              ELSE IF b < Len(D.es) THEN b' = b + 1 /\ UNCHANGED <<a, res>> ELSE res' = "ok" /\ a' = "end" /\ UNCHANGED b
           /\ UNCHANGED <<D, n>>
Next == Damage \/ Go \/ Vertex \/ Element
Spec == Init /\ [][Next]_vars
Verdict == a = "end" => LET F == Faults(D) IN IF F = {} THEN res = "ok" ELSE res \in F
SoundMeshes == n = 0 => Faults(D) = {}
=============================================================================
