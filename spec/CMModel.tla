------------------------------ MODULE CMModel ------------------------------
(* Cuthill-McKee as the code does it: rows waiting by degree, a queue that   *)
(* may hold a row several times, any order among equal degrees.  For every   *)
(* graph with every set of diagonal entries on 1..n.                         *)
EXTENDS Order, TLC, Json, CSV, IOUtils
CONSTANTS n, Emit
VARIABLES G, D, rows, q, R, ph     \* edges, diagonal entries, rows waiting, queue, result, phase
vars == <<G, D, rows, q, R, ph>>
V == 1..n
Edges == {e \in V \X V : e[1] < e[2]}
Adj == G \cup {<<e[2], e[1]>> : e \in G}
Nb(v) == {w \in V : <<v, w>> \in Adj}
deg == [v \in V |-> Cardinality(Nb(v)) + (IF v \in D THEN 1 ELSE 0)]
Log == Emit => CSVWrite("%1$s", <<ToJson(<<"cm", n, [i \in V |-> [j \in V |-> IF <<i, j>> \in Adj \/ (i = j /\ i \in D) THEN 1 ELSE 0]]>>)>>, IOEnv.EMIT)

Init == G \in SUBSET Edges /\ D \in SUBSET V /\ rows = V /\ q = <<>> /\ R = <<>> /\ ph = "start"
Start == ph = "start" /\ ph' = "root" /\ Log /\ UNCHANGED <<G, D, rows, q, R>>
\* all orders of the neighbours by degree
Sorted(S) == {s \in [1..Cardinality(S) -> S] : (\A i, j \in 1..Cardinality(S) : i < j => deg[s[i]] <= deg[s[j]] /\ s[i] # s[j])}
Number(v) == /\ R' = Append(R, v) /\ rows' = rows \ {v}
             /\ \E s \in Sorted(Nb(v)) : q' = (IF q = <<>> THEN <<>> ELSE Tail(q)) \o s
Root == /\ ph = "root" /\ q = <<>> /\ rows # {}
        /\ \E v \in rows : (\A w \in rows : deg[v] <= deg[w]) /\ Number(v)
        /\ UNCHANGED <<G, D, ph>>
Pop == /\ ph = "root" /\ q # <<>>
       /\ IF Head(q) \in rows THEN Number(Head(q)) ELSE q' = Tail(q) /\ UNCHANGED <<R, rows>>
       /\ UNCHANGED <<G, D, ph>>
Done == ph = "root" /\ q = <<>> /\ rows = {} /\ ph' = "end" /\ UNCHANGED <<G, D, rows, q, R>>
Next == Start \/ Root \/ Pop \/ Done
Spec == Init /\ [][Next]_vars

Ordered == ph = "end" => CuthillMcKee(Adj, deg, R, n)
\* nothing is numbered twice, everything reachable is queued
Partial == /\ \A i, j \in 1..Len(R) : i # j => R[i] # R[j]
           /\ rows = V \ {R[i] : i \in 1..Len(R)}
           /\ ph # "start" => \A i \in 1..Len(R) : Nb(R[i]) \cap rows \subseteq {q[k] : k \in 1..Len(q)}
\* the definition allows exactly the orders that some choice among equals produces
Covers == ph = "start" => LET S == {o \in [V -> V] : CuthillMcKee(Adj, deg, o, n)} IN S # {}
=============================================================================
