-------------------------------- MODULE Vtk --------------------------------
(* The document a VTK export of a mesh has to be.  A node of the document    *)
(* tree is [t |-> tag, a |-> attributes, x |-> tokens of its text, c |->     *)
(* children]; a token [n |-> exact number, q |-> 10000 times it, rounded].   *)
EXTENDS Num, FiniteSets, TLC
Kids(n, tag) == SelectSeq(n.c, LAMBDA x : x.t = tag)
Only(n, tag) == Kids(n, tag)[1]
Exact(n) == [i \in 1..Len(n.x) |-> n.x[i].n]
Has(n, k, v) == k \in DOMAIN n.a /\ n.a[k] = v
Str(i) == ToString(i)
\* six significant digits of numbers below 100
Near(tok, x) == IF x[3] \in {1, 2, 4, 8, 16} THEN tok.n = x ELSE IAbs(tok.q * x[3] - x[1] * 10000) <= 2 * x[3]
Holds(n, vals) == Len(n.x) = Len(vals) /\ \A i \in 1..Len(vals) : Near(n.x[i], vals[i])
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* geometry of element e of mesh D
Px(e, i) == e.p[i + 1]
MatV(e) == <<Sub(Px(e, 1)[1], Px(e, 0)[1]), Sub(Px(e, 2)[1], Px(e, 0)[1]), Sub(Px(e, 1)[2], Px(e, 0)[2]), Sub(Px(e, 2)[2], Px(e, 0)[2])>>
Det(e) == LET m == MatV(e) IN Sub(Mul(m[1], m[4]), Mul(m[2], m[3]))
Grad0(e) == <<Div(Sub(Px(e, 1)[2], Px(e, 2)[2]), Det(e)), Div(Sub(Px(e, 2)[1], Px(e, 1)[1]), Det(e))>>
Arrays(n) == Kids(n, "DataArray")
Components(n) == IF "NumberOfComponents" \in DOMAIN n.a THEN n.a["NumberOfComponents"] ELSE "1"
\* the section n has exactly the arrays demanded: sequence of [n |-> name, k |-> components, v |-> values]
Section(n, want) ==
    LET as == Arrays(n) IN
    /\ Len(as) = Len(n.c) /\ Len(as) = Len(want)
    /\ \A i \in 1..Len(as) : Has(as[i], "format", "ascii") /\ "type" \in DOMAIN as[i].a
    /\ \A w \in 1..Len(want) : \E i \in 1..Len(as) : Has(as[i], "Name", want[w].n) /\ Components(as[i]) = Str(want[w].k) /\ Holds(as[i], want[w].v)
Opt(b, x) == IF b THEN <<x>> ELSE <<>>
Fields(fs) == [i \in 1..Len(fs) |-> [n |-> fs[i].n, k |-> 1, v |-> fs[i].v]]
Bit(f, b) == (f \div b) % 2
Document(X, D, order, E) ==
    LET nv == Len(D.vs)  ne == Len(D.es)
        kinds == <<"Points", "Cells", "PointData", "CellData">>
        grid == X.c[1]
        piece == grid.c[1]
    IN /\ X.t = "VTKFile" /\ Has(X, "type", "UnstructuredGrid") /\ Has(X, "version", "0.1") /\ Has(X, "byte_order", "LittleEndian")
       /\ Len(X.c) = 1 /\ grid.t = "UnstructuredGrid"
       /\ Len(grid.c) = 1 /\ piece.t = "Piece"
       /\ Has(piece, "NumberOfPoints", Str(nv)) /\ Has(piece, "NumberOfCells", Str(ne))
       /\ Len(piece.c) = 4 /\ \A k \in 1..4 : Len(Kids(piece, kinds[k])) = 1
       \* text only within the arrays
       /\ X.x = <<>> /\ grid.x = <<>> /\ piece.x = <<>> /\ \A k \in 1..4 : piece.c[k].x = <<>>
       \* points
       /\ LET p == Only(piece, "Points") IN
            /\ Len(p.c) = 1 /\ p.c[1].t = "DataArray" /\ Components(p.c[1]) = "3" /\ Has(p.c[1], "format", "ascii")
            /\ Holds(p.c[1], Flat([i \in 1..nv |-> <<D.vs[i].p[1], D.vs[i].p[2], Zero>>]))
       \* cells
       /\ Section(Only(piece, "Cells"),
            <<[n |-> "connectivity", k |-> 1, v |-> Flat([i \in 1..ne |-> [j \in 1..Len(D.es[i].d) |-> N(D.vs[D.es[i].d[j] + 1].g)]])],
              [n |-> "offsets", k |-> 1, v |-> [i \in 1..ne |-> N(i * (IF order = 2 THEN 6 ELSE 3))]],
              [n |-> "types", k |-> 1, v |-> [i \in 1..ne |-> N(IF order = 2 THEN 22 ELSE 5)]]>>)
       \* data
       /\ LET p == Only(piece, "PointData") IN
            /\ Section(p, Fields(E.pf)
                 \o Opt(E.bnd, [n |-> "BoundaryLabel", k |-> 1, v |-> [i \in 1..nv |-> N(Bit(D.vs[i].f, 1))]])
                 \o Opt(E.imp, [n |-> "ImplicitLabel", k |-> 1, v |-> [i \in 1..nv |-> N(Bit(D.vs[i].f, 2))]]))
            /\ IF E.pf = <<>> THEN "Scalars" \notin DOMAIN p.a ELSE \E i \in 1..Len(E.pf) : Has(p, "Scalars", E.pf[i].n)
       /\ Section(Only(piece, "CellData"), Fields(E.cf)
            \o Opt(E.det, [n |-> "ElementDeterminant", k |-> 1, v |-> [i \in 1..ne |-> Det(D.es[i])]])
            \o Opt(E.mat, [n |-> "ElementMatrix", k |-> 4, v |-> Flat([i \in 1..ne |-> MatV(D.es[i])])])
            \o Opt(E.grad, [n |-> "ElementGradient", k |-> 2, v |-> Flat([i \in 1..ne |-> Grad0(D.es[i])])]))
=============================================================================
