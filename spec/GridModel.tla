------------------------------ MODULE GridModel ------------------------------
(* The generator of rectangle meshes: first row of vertices, then row by row *)
(* with the memory of the last row and the last vertex, as in the code.      *)
(* A vertex is its position <<i, j>>; the tiling is checked when it ends.    *)
EXTENDS MeshDef
CONSTANTS MaxN
VARIABLES nx, ny, vs, flag, es, lastRow, lastV, i, j, ph
vars == <<nx, ny, vs, flag, es, lastRow, lastV, i, j, ph>>
Init == /\ nx \in 0..MaxN /\ ny \in 0..MaxN /\ vs = <<>> /\ flag = {} /\ es = <<>>
        /\ lastRow = <<>> /\ lastV = 0 /\ i = 1 /\ j = 0
        /\ ph = IF nx < 1 \/ ny < 1 THEN "refused" ELSE "first"
\* vertices are numbered from 1 in the order in which they are handed over
FirstRow == /\ ph = "first" /\ j <= nx
            /\ vs' = Append(vs, <<j, 0>>) /\ flag' = flag \cup {Len(vs) + 1} /\ lastRow' = Append(lastRow, Len(vs) + 1)
            /\ IF j < nx THEN j' = j + 1 /\ UNCHANGED ph ELSE j' = 0 /\ ph' = "rowstart"
            /\ UNCHANGED <<nx, ny, es, lastV, i>>
RowStart == /\ ph = "rowstart" /\ i <= ny
            /\ vs' = Append(vs, <<0, i>>) /\ lastV' = Len(vs) + 1 /\ flag' = flag \cup {Len(vs) + 1}
            /\ j' = 1 /\ ph' = "cell" /\ UNCHANGED <<nx, ny, es, lastRow, i>>
Cell == /\ ph = "cell" /\ j <= nx
        /\ LET v == Len(vs) + 1 IN
           /\ vs' = Append(vs, <<j, i>>)
           /\ es' = es \o <<<<lastRow[j], lastV, v>>, <<lastRow[j], v, lastRow[j + 1]>>>>
           /\ lastRow' = [lastRow EXCEPT ![j] = lastV]
           /\ lastV' = v
        /\ j' = j + 1 /\ UNCHANGED <<nx, ny, flag, i, ph>>
RowEnd == /\ ph = "cell" /\ j > nx
          /\ flag' = flag \cup {lastV} /\ lastRow' = [lastRow EXCEPT ![nx + 1] = lastV]
          /\ i' = i + 1 /\ ph' = (IF i < ny THEN "rowstart" ELSE "top")
          /\ UNCHANGED <<nx, ny, vs, es, lastV, j>>
Top == ph = "top" /\ flag' = flag \cup Elts(lastRow) /\ ph' = "end" /\ UNCHANGED <<nx, ny, vs, es, lastRow, lastV, i, j>>
Next == FirstRow \/ RowStart \/ Cell \/ RowEnd \/ Top
Spec == Init /\ [][Next]_vars

Area2(t) == LET a == vs[t[1]] b == vs[t[2]] c == vs[t[3]] IN (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
CellOf(c, d) == {<<c, d>>, <<c + 1, d>>, <<c, d + 1>>, <<c + 1, d + 1>>}
At(t) == {vs[t[1]], vs[t[2]], vs[t[3]]}
Tiled(mx, my) ==          \* the first `my` rows of cells and the first mx cells of the next
    \A c \in 0..(nx - 1) : \A d \in 0..(ny - 1) :
        LET S == {e \in 1..Len(es) : At(es[e]) \subseteq CellOf(c, d)} IN
        IF d < my \/ (d = my /\ c < mx)
        THEN /\ Cardinality(S) = 2 /\ UNION {At(es[e]) : e \in S} = CellOf(c, d)
             /\ LET both == {v \in CellOf(c, d) : \A e \in S : v \in At(es[e])} IN
                both = {<<c, d>>, <<c + 1, d + 1>>} \/ both = {<<c + 1, d>>, <<c, d + 1>>}
        ELSE S = {}
Border == {k \in 1..Len(vs) : vs[k][1] \in {0, nx} \/ vs[k][2] \in {0, ny}}
\* while a row is built, the cells to its left are complete and the memory holds the last finished vertices
Memory == ph = "cell" => /\ vs[lastV] = <<j - 1, i>>
                         /\ \A k \in 1..(j - 1) : vs[lastRow[k]] = <<k - 1, i>>
                         /\ \A k \in j..(nx + 1) : vs[lastRow[k]] = <<k - 1, i - 1>>
                         /\ Tiled(j - 1, i - 1)
Nondegenerate == \A e \in 1..Len(es) : Area2(es[e]) \in {1, -1}
SameSense == \A e \in 1..Len(es) : Area2(es[e]) = Area2(es[1])
Complete == ph = "end" =>
    /\ Len(vs) = (nx + 1) * (ny + 1) /\ Elts(vs) = (0..nx) \X (0..ny)
    /\ Len(es) = 2 * nx * ny /\ Tiled(0, ny)
    /\ flag = Border
    /\ ~ TooMany(es)
    /\ BoundaryVertices(es) = Border
Refusal == ph = "refused" <=> (nx < 1 \/ ny < 1)
=============================================================================
