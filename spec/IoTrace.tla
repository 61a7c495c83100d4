------------------------------- MODULE IoTrace -------------------------------
(* Recorded calls of the loaders, the exporter and the stream operators.     *)
EXTENDS MeshDef, Loader, Obj, Json, IOUtils
V == INSTANCE Vtk
T == INSTANCE Text
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1
Reset == Is("reset")

\* the mesh D has exactly these vertices and elements, fully linked
MeshIs(D, points, tris) ==
    /\ [k \in 1..Len(D.es) |-> D.es[k].v] = tris
    /\ [k \in 1..Len(D.vs) |-> D.vs[k].p] = points
    /\ \A k \in 1..Len(D.es) : \A j \in 1..3 : D.es[k].p[j] = points[D.es[k].v[j] + 1]
    /\ Numbered(D) /\ VertexLists(D) /\ Linked(D)

(* ------------------------------------------------------------- C24 *)
LoadOk == LET nt == NonBlank(Ev.node) et == NonBlank(Ev.ele)
              n == NodeOk(nt)
              e == n /\ EleOk(et, Len(nt) - 1)
          IN /\ Ev.blocks = 0
             \* (an element that names a vertex twice is neither demanded to be taken nor to be rejected)
             /\ IF e /\ \E k \in 1..(Len(et) - 1) : Cardinality(Triple(Triangles(et)[k])) < 3 THEN TRUE
                ELSE IF e THEN IF TooMany(Triangles(et)) THEN Ev.exc = "TooManySharedFaces"
                          ELSE Ev.exc = "ok" /\ MeshIs(Ev.d, Points(nt), Triangles(et))
                ELSE IF n THEN Ev.exc = "LoadTriangleElementError"
                \* both texts may be wrong
                ELSE Ev.exc = "LoadTriangleNodeError" \/ (Ev.exc = "LoadTriangleElementError" /\ Ev.both)
Load == Is("load") /\ LoadOk = TRUE

(* ------------------------------------------------------------- C25 *)
ObjOk == LET K == Keys(Ev.t) W == Verts(K) F == Tris(K, W) IN
         /\ Ev.blocks = 0
         /\ IF Ev.missing THEN Ev.exc = "LoadObjError"
            ELSE IF F # <<>> /\ TooMany(F) THEN Ev.exc = "TooManySharedFaces"
            ELSE Ev.exc = "ok" /\ MeshIs(Ev.d, Coords(Ev.t, W, Ev.x, Ev.y), F)
ObjLoad == Is("obj") /\ ObjOk = TRUE

(* ------------------------------------------------------------- C26 *)
Vtk == Is("vtk") /\ (Ev.wf /\ Ev.same /\ V!Document(Ev.x, Ev.d, Ev.o, Ev)) = TRUE
(* ------------------------------------------------------------- C27 *)
Text == Is("text") /\ Ev.s = T!TextOf(Ev.k, Ev.c, Ev.cx)

Items == Is("items") /\ (\A k \in 2..Len(Ev.c) : LET a == Ev.c[k - 1] b == Ev.c[k] IN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])) = TRUE /\ Ev.s = T!ItemsText(Ev.c, Ev.cx)

Next == Reset \/ Load \/ ObjLoad \/ Vtk \/ Text \/ Items
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
