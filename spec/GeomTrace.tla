----------------------------- MODULE GeomTrace -----------------------------
(* Recorded triangles, shape functions, quadrature rules and combinatorial   *)
(* helpers against their exact definitions.  `tri`: the vertices of the      *)
(* triangle object as last prepared.  `rule`: weights and degree of the rule *)
EXTENDS Geom, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tri, rule
vars == <<l, tri, rule>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1 /\ tri = <<>> /\ rule = <<>>
Reset == Is("reset") /\ tri' = <<>> /\ rule' = <<>>
Same == UNCHANGED <<tri, rule>>

(* ------------------------------------------------------------- C20 *)
\* the vertices were written and the triangle prepared
Prepare == Is("prep") /\ tri' = Ev.p /\ UNCHANGED rule
Known == LET P == tri D == TriDet(P) M == TriMatrix(P) IN
   /\ Ev.d = D /\ ~ IsZero(D)
   /\ Ev.p = P /\ Ev.m = M /\ Ev.det = D
   /\ Ev.inv = <<<<M[2][2], Neg(M[1][2])>>, <<Neg(M[2][1]), M[1][1]>>>>           \* times D
   /\ Ev.vol2 = NAbs(D) /\ Ev.unit2 = One
   /\ \A i \in 1..3 : Ev.grad[i] = GradD(P, i)                                     \* times D
   /\ Centre(P, Ev.c, D)                                                           \* times 2 D
   /\ Ev.r2 = Mul(Mul(Len2(Edge(P, 1, 2)), Len2(Edge(P, 2, 3))), Len2(Edge(P, 3, 1)))    \* (2 D R)^2
   /\ \E i \in 1..3 : Ev.d2 = Len2(Edge(P, i, Next3(i))) /\ \A j \in 1..3 : Leq(Len2(Edge(P, j, Next3(j))), Ev.d2)
   /\ \A i \in 1..3 : LET j == Next3(i) k == Next3(j) e == Edge(P, j, k) IN
         /\ Ev.fc[i] = <<Mul(<<1, 0, 2>>, Add(P[j][1], P[k][1])), Mul(<<1, 0, 2>>, Add(P[j][2], P[k][2]))>>
         /\ Ev.e2[i] = Len2(e)
         /\ LET n == Ev.fn[i] IN n \in {<<e[2], Neg(e[1])>>, <<Neg(e[2]), e[1]>>}   \* times the length of the edge
                                /\ Less(Dot(n, Edge(P, j, i)), Zero)
   \* the vertices are the reference vertices, local and global are inverse
   /\ Ev.vl = <<<<Zero, Zero>>, <<One, Zero>>, <<Zero, One>>>>
   /\ \A q \in 1..Len(Ev.q) : LET x == Ev.q[q] y == Ev.loc[q] IN                   \* loc times D
         /\ VAdd(<<Mul(D, P[1][1]), Mul(D, P[1][2])>>, MVec(M, y)) = <<Mul(D, x[1]), Mul(D, x[2])>>
         /\ Ev.back[q] = x
   /\ \A q \in 1..Len(Ev.s) : /\ Ev.glob[q] = VAdd(P[1], MVec(M, Ev.s[q]))
                              /\ Ev.sback[q] = Ev.s[q]
Query == Is("tri") /\ Known = TRUE /\ Same

(* ------------------------------------------------------------- C21 *)
ShapeOk == LET n == Ev.o nd == Nodes(Ev.k, n) IN
   /\ <<Ev.k, n>> \in Offered
   /\ Ev.dof = Len(nd) /\ Len(Ev.v) = Len(nd)
   /\ \A i \in 1..Len(nd) : /\ Ev.v[i] = Value(n, nd[i], Ev.x)
                            /\ Ev.g[i] = Gradient(n, nd[i], Ev.x)
                            /\ Ev.h[i] = Gradient2(n, nd[i], Ev.x)
Shape == Is("shape") /\ ShapeOk = TRUE /\ Same

(* ------------------------------------------------------------- C23 *)
Degree == IF Ev.k = 1 THEN 2 * Ev.o - 1 ELSE Ev.o
Volume(k) == Frac(1, Fact(k))
RuleOk == /\ \A i \in 1..Len(Ev.w) : Finite(Ev.w[i])
          /\ SumSeq(Ev.w) = Volume(Ev.k)
          /\ Len(Ev.p) = Len(Ev.w)
          \* points in units of 1e-8
          /\ \A i \in 1..Len(Ev.p) : /\ Len(Ev.p[i]) = Ev.k
                                     /\ \A c \in 1..Ev.k : Ev.p[i][c] >= 0 - Ev.eps
                                     /\ (IF Ev.k = 1 THEN Ev.p[i][1] ELSE Ev.p[i][1] + Ev.p[i][2]) <= 100000000 + Ev.eps
          /\ \A i \in 1..Len(Ev.p) : \A j \in 1..Len(Ev.p) : i # j => Ev.p[i] # Ev.p[j]
Rule == Is("rule") /\ RuleOk = TRUE /\ rule' = [w |-> Ev.w, deg |-> Degree, k |-> Ev.k, p |-> Ev.p] /\ UNCHANGED tri
\* a polynomial given by exponents and coefficients
PolyIntegral == SumSeq([i \in 1..Len(Ev.c) |-> Mul(Ev.c[i], Integral(Ev.x[i]))])
Deg(e) == IF Len(e) = 1 THEN e[1] ELSE e[1] + e[2]
Integrate == /\ Is("poly") /\ \A i \in 1..Len(Ev.x) : Deg(Ev.x[i]) <= rule.deg
             /\ (Ev.r = Add(Ev.start, PolyIntegral)) = TRUE
             /\ Same
\* the function returned the given values; calls seen
Visit == /\ Is("visit")
         /\ Ev.seen = rule.p
         /\ Ev.idx = [i \in 1..Len(rule.w) |-> i - 1]
         /\ \A c \in 1..Len(Ev.start) : Ev.r[c] = Add(Ev.start[c], SumSeq([i \in 1..Len(rule.w) |-> Mul(rule.w[i], Ev.f[i][c])]))
         /\ Same

(* ------------------------------------------------------------- C28 *)
SignPow == Is("sign") /\ Ev.r = (IF Ev.k % 2 = 0 THEN 1 ELSE -1) /\ Same
Factorial == Is("fact") /\ (Ev.r = BFact(Ev.n)) = TRUE /\ Same
Binom == Is("binom") /\ (Ev.r = BBinom(Ev.n, Ev.k)) = TRUE /\ Same
RealBinom == Is("rbinom") /\ (Ev.r = GBinom(Ev.x, Ev.k)) = TRUE /\ Same
MinMax == /\ Is("minmax") /\ Ev.mn = (IF Leq(Ev.a, Ev.b) THEN Ev.a ELSE Ev.b) /\ Ev.mx = (IF Leq(Ev.a, Ev.b) THEN Ev.b ELSE Ev.a)
          /\ Same
\* the unit normal times its unnormalised length (square root of l2)
Normal == Is("normal") /\ (LET x == Cross(Ev.v) IN Ev.l2 = Len2(x) /\ ~ IsZero(Ev.l2) /\ Ev.r = x) = TRUE /\ Same

Next == Reset \/ Prepare \/ Query \/ Shape \/ Rule \/ Integrate \/ Visit \/ SignPow \/ Factorial \/ Binom \/ RealBinom \/ MinMax \/ Normal
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
