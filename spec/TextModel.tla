------------------------------ MODULE TextModel ------------------------------
(* The text of a vector or matrix determines its content: one state per      *)
(* content; no two contents of one kind (sparse: of one shape) share a text. *)
EXTENDS Text, FiniteSets
CONSTANTS Cplx
Vals == IF Cplx THEN {N(0), N(1), <<0, 1, 1>>, <<-1, 1, 2>>} ELSE {N(0), N(1), N(-1), N(10), Frac(1, 2), Frac(-3, 4)}
Shapes == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>}
Mats(s) == [1..s[1] -> [1..s[2] -> Vals]]
Vecs == UNION {[1..n -> Vals] : n \in 0..3}
VARIABLE stage
Init == stage = 0
Entries(c) == LET m == Len(c[1]) all == [k \in 1..(Len(c) * m) |-> <<(k - 1) \div m, (k - 1) % m, c[((k - 1) \div m) + 1][((k - 1) % m) + 1]>>] IN SelectSeq(all, LAMBDA e : ~ IsZero(e[3]))
Next == stage < 4 /\ stage' = stage + 1
Spec == Init /\ [][Next]_stage
Texts(kind, S) == {TextOf(kind, c, Cplx) : c \in S}
Determines ==
    CASE stage = 0 -> TRUE
      [] stage = 1 -> Cardinality(Texts("vec", Vecs)) = Cardinality(Vecs)
      [] stage = 2 -> LET M == UNION {Mats(s) : s \in Shapes} IN Cardinality(Texts("mat", M)) = Cardinality(M)
      [] stage = 3 -> \A s \in Shapes : Cardinality(Texts("sparse", Mats(s))) = Cardinality(Mats(s))
      \* the list of the stored entries says the same
      [] stage = 4 -> \A s \in Shapes : \A c \in Mats(s) : ItemsText(Entries(c), Cplx) = SparseText(c, Cplx)
==============================================================================
