----------------------------- MODULE LuTrace -----------------------------
(* Recorded factorisations, determinants, solutions and inverses: each event *)
(* carries operands and results; what the results have to satisfy is defined *)
(* in exact arithmetic.  `exc` names the exception thrown or "ok".           *)
EXTENDS LU, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Init == l = 1
Reset == Is("reset")
Id(A) == Eye(Rows(A), Rows(A))

\* C09
LuEv == Is("lu") /\ LET A == Ev.a IN
    /\ Ev.after = A
    /\ CASE ~ IsSquare(A) -> Ev.exc = "NotSquare"
         [] IsSquare(A) /\ ~ Ev.out -> Ev.exc = "InvalidOutputMatrix"
         [] OTHER ->
              \/ Ev.exc = "Singular" /\ IsZero(Det(A))
              \/ /\ Ev.exc = "ok"
                 /\ IsPerm01(Ev.p) /\ Rows(Ev.p) = Rows(A)
                 /\ SameShape(Ev.l, A) /\ IsUnitLower(Ev.l)
                 /\ SameShape(Ev.u, A) /\ IsUpper(Ev.u) /\ Ev.up
                 /\ Ev.one
                 /\ PALU(A, Ev.l, Ev.u, Ev.p)
                 /\ "n" \in DOMAIN Ev => Ev.n % 2 = PermSign(Ev.p)
\* C10
DetEv == Is("det") /\ Ev.after = Ev.a /\ Ev.exc = "ok" /\ Ev.d = IF IsSquare(Ev.a) THEN Det(Ev.a) ELSE Zero
InvEv == Is("inv") /\ LET A == Ev.a IN
    /\ Ev.after = A
    \* a zero pivot may come out as a rounding error, unless every step is free of rounding
    /\ IF IsZero(Det(A)) THEN Ev.exc = "Singular" \/ (Ev.exc = "ok" /\ ~ Ev.exact)
       ELSE Ev.exc = "ok" /\ SameShape(Ev.r, A) /\ MMul(A, Ev.r) = Id(A) /\ MMul(Ev.r, A) = Id(A)
SolveEv == Is("solve") /\ LET L == Ev.l U == Ev.u
                              shape == (IF ~ IsSquare(L) \/ ~ IsSquare(U) THEN {"NotSquare"} ELSE {})
                                       \cup (IF Rows(L) # Rows(U) THEN {"MatrixSizeMismatch"} ELSE {})
                                       \cup (IF Rows(L) # Len(Ev.b) THEN {"MatrixVectorMismatch"} ELSE {}) IN
    /\ Ev.al = L /\ Ev.au = U /\ Ev.after = Ev.b
    /\ IF shape # {} THEN Ev.exc \in shape
       ELSE IF ~ DiagNonZero(L) \/ ~ DiagNonZero(U) THEN Ev.exc = "Singular"
       ELSE Ev.exc = "ok" /\ MVec(L, MVec(U, Ev.x)) = Ev.b
\* C11
CholEv == Is("chol") /\ LET A == Ev.a good == Ev.exc = "ok" /\ Ev.low /\ Ev.pos /\ Ev.g = A IN
    /\ Ev.after = A
    /\ IF ~ IsSquare(A) THEN Ev.exc \in {"NotSquare"} \cup (IF Ev.out THEN {} ELSE {"InvalidOutputMatrix"})
       ELSE IF ~ Ev.out THEN Ev.exc = "InvalidOutputMatrix"
       \* (such input is only generated for builds with NS_ALLOW_CHECKS)
       ELSE IF ~ Hermitian(A) THEN Ev.exc = "NotHermitian"
       ELSE            LET ms == MinorSeq(A) IN
               IF PositiveDefinite(ms) THEN good
               ELSE \/ Ev.exc = "NotPositiveDefinite"
                    \* a zero minor may round to a positive pivot, unless every step is free of rounding
                    \/ LET k == FirstBad(ms) IN ms[k] = Zero /\ k > 1 /\ ~ Ev.exact
\* C12
IluEv == Is("ilu") /\ LET A == Ev.a IN
    /\ Ev.after = A
    /\ IF ~ IsSquare(A) THEN Ev.exc = "NotSquare"
       ELSE LET r == Ilu0(A) IN
            IF ~ r.ok THEN Ev.exc = "Singular"
            ELSE /\ Ev.exc = "ok"
                 /\ IsUnitLower(Ev.l) /\ IsUpper(Ev.u) /\ SameShape(Ev.l, A) /\ SameShape(Ev.u, A)
                 /\ Ev.l = IluL(r.m) /\ Ev.u = IluU(r.m)
                 /\ LET S == PatternOf(A) p == MMul(Ev.l, Ev.u) IN
                      /\ \A q \in S : p[q[1]][q[2]] = A[q[1]][q[2]]
                      /\ \A i \in 1..Rows(A) : \A j \in 1..Rows(A) : (i # j /\ <<i, j>> \notin S) => IsZero(Ev.l[i][j]) /\ IsZero(Ev.u[i][j])
AinvEv == Is("ainv") /\ LET L == Ev.l U == Ev.u
                             ns == \E M \in {L, U, Ev.ils, Ev.ius} : ~ IsSquare(M)
                             mm == \E M \in {U, Ev.ils, Ev.ius} : Rows(M) # Rows(L)
                             shape == (IF ns THEN {"NotSquare"} ELSE {}) \cup (IF mm THEN {"MatrixSizeMismatch"} ELSE {}) IN
    /\ Ev.al = L /\ Ev.au = U
    /\ IF shape # {} THEN Ev.exc \in shape
       ELSE IF ~ DiagNonZero(U) THEN Ev.exc = "Singular"
       ELSE /\ Ev.exc = "ok" /\ SameShape(Ev.il, L) /\ SameShape(Ev.iu, U)
            /\ MMul(L, Ev.il) = Id(L) /\ MMul(Ev.il, L) = Id(L)
            /\ MMul(U, Ev.iu) = Id(U) /\ MMul(Ev.iu, U) = Id(U)
InvLUEv == Is("invlu") /\ LET L == Ev.l U == Ev.u
                               shape == (IF ~ IsSquare(L) \/ ~ IsSquare(U) THEN {"NotSquare"} ELSE {})
                                        \cup (IF Rows(L) # Rows(U) THEN {"MatrixSizeMismatch"} ELSE {}) IN
    /\ Ev.al = L /\ Ev.au = U
    /\ IF shape # {} THEN Ev.exc \in shape
       ELSE IF ~ DiagNonZero(U) THEN Ev.exc = "Singular"
       ELSE Ev.exc = "ok" /\ LET A == MMul(L, U) IN MMul(A, Ev.r) = Id(A) /\ MMul(Ev.r, A) = Id(A)
InvLUPEv == Is("invlup") /\ LET L == Ev.l U == Ev.u P == Ev.p
                                ns == \E M \in {L, U, P} : ~ IsSquare(M)
                                mm == Rows(U) # Rows(L) \/ Rows(P) # Rows(U)
                                shape == (IF ns THEN {"NotSquare"} ELSE {}) \cup (IF mm THEN {"MatrixSizeMismatch"} ELSE {}) IN
    /\ Ev.al = L /\ Ev.au = U /\ Ev.ap = P
    /\ IF shape # {} THEN Ev.exc \in shape
       ELSE IF ~ DiagNonZero(L) \/ ~ DiagNonZero(U) THEN Ev.exc = "Singular"
       ELSE Ev.exc = "ok" /\ LET A == MMul(MTrans(P), MMul(L, U)) IN MMul(A, Ev.r) = Id(A) /\ MMul(Ev.r, A) = Id(A)

Next == Reset \/ LuEv \/ DetEv \/ InvEv \/ SolveEv \/ CholEv \/ IluEv \/ AinvEv \/ InvLUEv \/ InvLUPEv
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
