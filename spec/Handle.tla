------------------------------- MODULE Handle -------------------------------
(* Mesh handles.  h[i]: 0 no object, -1 moved from, d > 0 refers to data d.  *)
(* Data d: t triangles of a strip, l of them linked, p prepared for second   *)
(* order, tag: position of its first vertex.                                 *)
EXTENDS Integers, Sequences, FiniteSets
Hs == 1..3
Empty == [t |-> 0, l |-> 0, p |-> FALSE, tag |-> 0]
Edges(c) == IF c.l = 0 THEN 0 ELSE 2 * c.l + 1
Nv(c) == IF c.t = 0 THEN 0 ELSE c.t + 2 + (IF c.p THEN Edges(c) ELSE 0)
Used(h) == {h[i] : i \in Hs} \ {0, -1}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
=============================================================================
