-------------------------------- MODULE Obj --------------------------------
(* What an OBJ text describes.  A text is a sequence of items [k |-> ..]:    *)
(* "v" vertex (p: its three coordinates), "t"/"n" texture and normal vectors *)
(* "f" face (c: sequence of corners <<v, t, n>> as written, 0 = not written, *)
(* negative = counted back from the latest), "s" a g or o line, "m" a        *)
(* material (m: number of a known material, -1 of an unknown one).           *)
EXTENDS Integers, Sequences, FiniteSets
Count(T, i, kind) == Cardinality({j \in 1..(i - 1) : T[j].k = kind})
Abs(x, n) == IF x > 0 THEN x - 1 ELSE IF x = 0 THEN -1 ELSE n + x
Corner(T, i, c) == <<Abs(c[1], Count(T, i, "v")), Abs(c[2], Count(T, i, "t")), Abs(c[3], Count(T, i, "n"))>>
First(S) == CHOOSE x \in S : \A y \in S : x <= y
AllFaces1(T) == {i \in 1..Len(T) : T[i].k = "f"}
\* the faces of the first shape: from the first face up to the next g or o line
ShapeEnd(T) == LET f == First(AllFaces1(T)) IN First({i \in (f + 1)..Len(T) : T[i].k = "s"} \cup {Len(T) + 1})
Faces(T) == IF AllFaces1(T) = {} THEN {} ELSE {i \in AllFaces1(T) : i < ShapeEnd(T)}
RECURSIVE MatAt(_, _)
MatAt(T, i) == IF i = 0 THEN -1 ELSE IF T[i].k = "m" THEN T[i].m ELSE MatAt(T, i - 1)
\* corners of different runs of one material are different vertices
Change(T, i) == T[i].k = "m" /\ MatAt(T, i) # MatAt(T, i - 1)
Run(T, i) == Cardinality({j \in 1..(i - 1) : Change(T, j)})
Key(T, i, c) == <<Run(T, i)>> \o Corner(T, i, c)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == First(S) IN <<x>> \o Sorted(S \ {x})
Keys(T) == LET fs == Sorted(Faces(T)) IN [k \in 1..Len(fs) |-> [j \in 1..Len(T[fs[k]].c) |-> Key(T, fs[k], T[fs[k]].c[j])]]
RECURSIVE Dedup(_, _)
Dedup(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Dedup(Tail(s), seen) ELSE <<Head(s)>> \o Dedup(Tail(s), seen \cup {Head(s)})
\* vertices of the shape in order of first use
Verts(K) == Dedup(Concat(K), {})
PosOf(V, x) == CHOOSE i \in 1..Len(V) : V[i] = x
\* a face with k corners is a fan of k - 2 triangles
Fan(V, f) == [q \in 1..(Len(f) - 2) |-> <<PosOf(V, f[1]) - 1, PosOf(V, f[q + 1]) - 1, PosOf(V, f[q + 2]) - 1>>]
Tris(K, V) == Concat([k \in 1..Len(K) |-> Fan(V, K[k])])
VItems(T) == SelectSeq(T, LAMBDA x : x.k = "v")
Coords(T, V, x, y) == LET vs == VItems(T) IN [i \in 1..Len(V) |-> <<vs[V[i][2] + 1].p[x + 1], vs[V[i][2] + 1].p[y + 1]>>]
=============================================================================
