------------------------------ MODULE LoadModel ------------------------------
(* The line machine of the triangle loader as the code runs it (mode, index  *)
(* shift, next index, fields one after the other), on every text that has at *)
(* most MaxDamage damages; it accepts exactly the well-formed ones.          *)
EXTENDS Loader, TLC, Json, CSV, IOUtils, FiniteSets
CONSTANTS MaxDamage, Emit
VARIABLES what, base, text, dmg, ph, pos, mode, shift, next, count, out
vars == <<what, base, text, dmg, ph, pos, mode, shift, next, count, out>>
I(n) == [k |-> "i", v |-> N(n)]
F(n) == [k |-> "f", v |-> Frac(n, 2)]
M(n) == [k |-> "m", v |-> N(0 - n)]
X == [k |-> "x", v |-> Zero]
Alphabet == {I(0), I(1), I(2), I(3), I(5), F(3), M(1), X}
NodeText(b) == <<<<I(3), I(2), I(0)>>, <<I(b), I(0), I(0)>>, <<I(b + 1), F(5), M(2)>>, <<I(b + 2), I(0), I(4), I(1)>>>>
EleText(b) == <<<<I(2), I(3)>>, <<I(b), I(b), I(b + 1), I(b + 2)>>, <<I(b + 1), I(b + 2), I(b + 1), I(b)>>>>
Init == /\ what \in {"node", "ele"} /\ base \in {0, 1}
        /\ text = (IF what = "node" THEN NodeText(base) ELSE EleText(base))
        /\ dmg = 0 /\ ph = "edit" /\ pos = 1 /\ mode = 0 /\ shift = 1 /\ next = 0 /\ count = 0 /\ out = "none"
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Edit == /\ ph = "edit" /\ dmg < MaxDamage /\ dmg' = dmg + 1
        /\ \/ \E i \in 1..Len(text) : text' = RemoveAt(text, i)
           \/ \E i \in 1..Len(text) : text' = InsertAt(text, i, text[i])
           \/ \E i \in 1..Len(text) : text' = InsertAt(text, i, <<>>)
           \/ \E i \in 1..(Len(text) - 1) : text' = [text EXCEPT ![i] = text[i + 1], ![i + 1] = text[i]]
           \/ \E i \in 1..Len(text) : \E j \in 1..Len(text[i]) :
                \/ text' = [text EXCEPT ![i] = RemoveAt(text[i], j)]
                \/ \E a \in Alphabet : text' = [text EXCEPT ![i][j] = a] \/ text' = [text EXCEPT ![i] = InsertAt(text[i], j, a)]
        /\ UNCHANGED <<what, base, ph, pos, mode, shift, next, count, out>>
Tok(f) == <<f.k, IF f.k = "f" THEN f.v[1] ELSE IF f.k = "x" THEN 0 ELSE f.v[1]>>
Log == Emit => CSVWrite("%1$s", <<ToJson(<<what, base, [i \in 1..Len(text) |-> [j \in 1..Len(text[i]) |-> Tok(text[i][j])]]>>)>>, IOEnv.EMIT)
Run == ph = "edit" /\ ph' = "run" /\ Log /\ UNCHANGED <<what, base, text, dmg, pos, mode, shift, next, count, out>>
Fail == ph' = "end" /\ out' = "error" /\ UNCHANGED <<what, base, text, dmg, pos, mode, shift, next, count>>
Has(L, j) == Len(L) >= j
Line == /\ ph = "run" /\ pos <= Len(text)
        /\ LET L == text[pos] IN
           IF L = <<>> THEN pos' = pos + 1 /\ UNCHANGED <<what, base, text, dmg, ph, mode, shift, next, count, out>>
           ELSE IF mode = 0
           THEN IF ~ (UInt(L[1]) /\ L[1].v[1] # 0) THEN Fail
                ELSE IF ~ (Has(L, 2) /\ Whole(L[2]) /\ L[2].v = N(IF what = "node" THEN 2 ELSE 3)) THEN Fail
                ELSE mode' = 1 /\ count' = L[1].v[1] /\ pos' = pos + 1 /\ UNCHANGED <<what, base, text, dmg, ph, shift, next, out>>
           ELSE IF ~ UInt(L[1]) THEN Fail
           ELSE LET sh == IF L[1].v[1] = 0 THEN 0 ELSE shift IN
                IF L[1].v[1] - sh # next THEN Fail
                ELSE IF what = "node"
                     THEN IF ~ (Has(L, 2) /\ RealF(L[2]) /\ Has(L, 3) /\ RealF(L[3])) THEN Fail
                          ELSE shift' = sh /\ next' = next + 1 /\ pos' = pos + 1 /\ UNCHANGED <<what, base, text, dmg, ph, mode, count, out>>
                     ELSE IF ~ (\A j \in 2..4 : Has(L, j) /\ UInt(L[j])) THEN Fail
                          ELSE IF \E j \in 2..4 : L[j].v[1] - sh < 0 \/ L[j].v[1] - sh >= 3 THEN Fail
                          ELSE shift' = sh /\ next' = next + 1 /\ pos' = pos + 1 /\ UNCHANGED <<what, base, text, dmg, ph, mode, count, out>>
Finish == /\ ph = "run" /\ pos > Len(text) /\ ph' = "end" /\ out' = (IF mode = 0 \/ next # count THEN "error" ELSE "ok")
          /\ UNCHANGED <<what, base, text, dmg, pos, mode, shift, next, count>>
Next == Edit \/ Run \/ Line \/ Finish
Spec == Init /\ [][Next]_vars
Good == LET T == NonBlank(text) IN IF what = "node" THEN NodeOk(T) ELSE EleOk(T, 3)
Decides == ph = "end" => (out = "ok") = Good
=============================================================================
