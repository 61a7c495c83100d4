------------------------------ MODULE NbModel ------------------------------
(* Linking the elements of a mesh through edges, step by step as the code    *)
(* does it: per element and local face, look for another element with the    *)
(* face, create the edge or enter the existing one, give up when a third     *)
(* element has it.  For every sequence of triangles over nv vertices, set up *)
(* in one go or in two with elements added in between; then boundary flags.  *)
EXTENDS MeshDef, TLC, Json, CSV, IOUtils
CONSTANTS nv, ne, Emit
VARIABLES els, first, avail, nb, edges, S, i, ph, flag
vars == <<els, first, avail, nb, edges, S, i, ph, flag>>
V == 1..nv
Tri == {t \in V \X V \X V : Cardinality({t[1], t[2], t[3]}) = 3}
Log == Emit => CSVWrite("%1$s", <<ToJson(<<"mesh", nv, first, [k \in 1..Len(els) |-> [j \in 1..3 |-> els[k][j] - 1]]>>)>>, IOEnv.EMIT)

Init == /\ \E n \in 1..ne : \E r \in [1..(n - 1) -> Tri] : els = <<<<1, 2, 3>>>> \o r
        /\ first \in 0..(Len(els) - 1)
        /\ avail = 0 /\ nb = <<>> /\ edges = <<>> /\ S = 0 /\ i = 1 /\ ph = "start" /\ flag = {}
AddTo(n) == /\ avail' = n /\ nb' = nb \o [k \in 1..(n - avail) |-> <<0, 0, 0>>]
            /\ S' = 1 /\ i' = 1 /\ ph' = "link" /\ UNCHANGED <<els, first, edges, flag>>
Start == ph = "start" /\ Log /\ AddTo(IF first = 0 THEN Len(els) ELSE first)
More == ph = "linked" /\ avail < Len(els) /\ AddTo(Len(els))
Advance == IF i < 3 THEN i' = i + 1 /\ UNCHANGED <<S, ph>>
           ELSE IF S < avail THEN S' = S + 1 /\ i' = 1 /\ UNCHANGED ph
           ELSE ph' = "linked" /\ UNCHANGED <<S, i>>
Skip == ph = "link" /\ nb[S][i] # 0 /\ Advance /\ UNCHANGED <<els, first, avail, nb, edges, flag>>
Link == /\ ph = "link" /\ nb[S][i] = 0
        /\ LET f == FaceOf(els[S], i)
               others == {o \in 1..avail : o # S /\ f \subseteq Triple(els[o])}
           IN IF Cardinality(others) > 1 THEN ph' = "toomany" /\ UNCHANGED <<nb, edges, S, i>>
              ELSE /\ IF others = {} THEN edges' = Append(edges, [v |-> f, e |-> {S}]) /\ nb' = [nb EXCEPT ![S][i] = Len(edges) + 1]
                      ELSE LET o == CHOOSE x \in others : TRUE
                               j == CHOOSE x \in 1..3 : els[o][x] \notin f
                           IN IF nb[o][j] # 0
                              THEN edges' = [edges EXCEPT ![nb[o][j]].e = @ \cup {S}] /\ nb' = [nb EXCEPT ![S][i] = nb[o][j]]
                              ELSE edges' = Append(edges, [v |-> f, e |-> {S, o}]) /\ nb' = [nb EXCEPT ![S][i] = Len(edges) + 1, ![o][j] = Len(edges) + 1]
                   /\ Advance
        /\ UNCHANGED <<els, first, avail, flag>>
Boundary == /\ ph = "linked" /\ flag' = flag \cup UNION {edges[k].v : k \in {x \in 1..Len(edges) : Cardinality(edges[x].e) = 1}}
            /\ ph' = IF avail = Len(els) THEN "end" ELSE ph
            /\ UNCHANGED <<els, first, avail, nb, edges, S, i>>
Next == Start \/ More \/ Skip \/ Link \/ Boundary
Spec == Init /\ [][Next]_vars

Now == SubSeq(els, 1, avail)
Dump == [vs |-> <<>>,
         es |-> [k \in 1..avail |-> [v |-> [j \in 1..3 |-> els[k][j]], n |-> [j \in 1..3 |-> nb[k][j] - 1]]],
         gs |-> [k \in 1..Len(edges) |-> [v |-> LET a == CHOOSE x \in edges[k].v : TRUE b == CHOOSE x \in edges[k].v : x # a IN <<a, b>>,
                                            e |-> LET a == CHOOSE x \in edges[k].e : TRUE
                                                      r == edges[k].e \ {a}
                                                  IN <<a - 1, IF r = {} THEN -1 ELSE (CHOOSE x \in r : TRUE) - 1>>]]]
LinkedAtEnd == ph \in {"linked", "end"} => ~ TooMany(Now) /\ (\A k \in 1..Len(edges) : Cardinality(edges[k].e) <= 2) /\ Linked(Dump)
RefusedOnly == ph = "toomany" => TooMany(Now)
\* an edge never loses an element, and at most its two elements are entered
Partial == \A k \in 1..Len(edges) : edges[k].e # {} /\ Cardinality(edges[k].e) <= 2 /\ \A e \in edges[k].e : edges[k].v \subseteq Triple(els[e])
Flagged == ph = "end" => BoundaryVertices(els) \subseteq flag /\ (first = 0 => flag = BoundaryVertices(els))
=============================================================================
