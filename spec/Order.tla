------------------------------- MODULE Order -------------------------------
(* Breadth-first orders by degree.  adj: set of pairs of vertices 1..n (both *)
(* directions), deg: number of entries of each row, o: sequence of vertices. *)
EXTENDS Integers, Sequences, FiniteSets

IsPermOf(o, n) == Len(o) = n /\ {o[i] : i \in 1..Len(o)} = 1..n
\* position of the first numbered neighbour, 0 for none
Parent(adj, o, i) ==
    LET ps == {j \in 1..(i - 1) : <<o[j], o[i]>> \in adj}
    IN IF ps = {} THEN 0 ELSE CHOOSE j \in ps : \A k \in ps : j <= k
CuthillMcKee(adj, deg, o, n) ==
    /\ IsPermOf(o, n)
    /\ LET par == [i \in 1..n |-> Parent(adj, o, i)] IN
       \A i \in 1..n :
          IF par[i] = 0                                   \* a new component: the previous ones are complete
          THEN \A k \in i..n : deg[o[i]] <= deg[o[k]] /\ par[k] \notin 1..(i - 1)
          ELSE par[i - 1] # 0 => \/ par[i - 1] < par[i]
                                 \/ par[i - 1] = par[i] /\ deg[o[i - 1]] <= deg[o[i]]
=============================================================================
