------------------------------ MODULE ObjModel ------------------------------
(* The OBJ reader as the code runs it: line by line, collecting a face group *)
(* that is flushed into the current shape by a material change, a g/o line   *)
(* or the end of the text.  On every text of up to MaxLen lines after the    *)
(* leading vertices its first shape is the one Obj.tla describes.            *)
EXTENDS Obj, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen, Emit
VARIABLES text, ph, pos, nv, nt, group, shape, shapes, mat
vars == <<text, ph, pos, nv, nt, group, shape, shapes, mat>>
Vl(q) == [k |-> "v", p |-> <<q, 0, 0>>]
NoShape == [keys |-> <<>>, tris |-> <<>>]
Lines == {[k |-> "v", p |-> <<9, 0, 0>>], [k |-> "t"], [k |-> "s"], [k |-> "m", m |-> -1], [k |-> "m", m |-> 0], [k |-> "m", m |-> 1],
          [k |-> "f", c |-> <<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>],
          [k |-> "f", c |-> <<<<-1, 0, 0>>, <<-2, 0, 0>>, <<2, 0, 0>>>>],
          [k |-> "f", c |-> <<<<1, 0, 0>>, <<3, 0, 0>>, <<4, 0, 0>>, <<2, 0, 0>>>>],
          [k |-> "f", c |-> <<<<2, 1, 0>>, <<3, 0, 0>>, <<-1, -1, 0>>>>]}
Init == text = [q \in 1..4 |-> Vl(q)] \o <<[k |-> "t"]>> /\ ph = "edit" /\ pos = 1 /\ nv = 0 /\ nt = 0 /\ group = <<>> /\ shape = NoShape /\ shapes = <<>> /\ mat = -1
Edit == /\ ph = "edit" /\ Len(text) < 5 + MaxLen /\ \E x \in Lines : text' = Append(text, x)
        /\ UNCHANGED <<ph, pos, nv, nt, group, shape, shapes, mat>>
Code(x) == IF x.k = "f" THEN <<x.k>> \o <<x.c>> ELSE IF x.k = "m" THEN <<x.k, x.m>> ELSE <<x.k>>
Log == Emit => CSVWrite("%1$s", <<ToJson(<<[i \in 1..(Len(text) - 5) |-> Code(text[i + 5])]>>)>>, IOEnv.EMIT)
Go == ph = "edit" /\ ph' = "run" /\ Log /\ UNCHANGED <<text, pos, nv, nt, group, shape, shapes, mat>>
\* updateVertex for the corners of a group with a cache of its own; st is <<keys, cache, tris>>
Get(st, key) == IF key \in DOMAIN st.cache THEN [st EXCEPT !.at = st.cache[key]]
                ELSE [st EXCEPT !.keys = Append(@, key), !.cache = @ @@ (key :> Len(st.keys)), !.at = Len(st.keys)]
RECURSIVE FanFrom(_, _, _)
FanFrom(st, f, q) == IF q > Len(f) THEN st
                     ELSE LET a == Get(st, f[1]) b == Get(a, f[q - 1]) c == Get(b, f[q])
                          IN FanFrom([c EXCEPT !.tris = Append(@, <<a.at, b.at, c.at>>)], f, q + 1)
RECURSIVE Flush(_, _)
Flush(st, g) == IF g = <<>> THEN st ELSE Flush(FanFrom(st, Head(g), 3), Tail(g))
Exported == LET r == Flush([keys |-> shape.keys, cache |-> <<>>, tris |-> shape.tris, at |-> 0], group) IN [keys |-> r.keys, tris |-> r.tris]
Step == /\ ph = "run" /\ pos <= Len(text) /\ pos' = pos + 1 /\ UNCHANGED <<text, ph>>
        /\ LET x == text[pos] IN
           CASE x.k = "v" -> nv' = nv + 1 /\ UNCHANGED <<nt, group, shape, shapes, mat>>
             [] x.k = "t" -> nt' = nt + 1 /\ UNCHANGED <<nv, group, shape, shapes, mat>>
             [] x.k = "f" -> group' = Append(group, [j \in 1..Len(x.c) |-> <<Abs(x.c[j][1], nv), Abs(x.c[j][2], nt), Abs(x.c[j][3], 0)>>]) /\ UNCHANGED <<nv, nt, shape, shapes, mat>>
             [] x.k = "m" -> IF x.m # mat THEN shape' = Exported /\ group' = <<>> /\ mat' = x.m /\ UNCHANGED <<nv, nt, shapes>>
                             ELSE UNCHANGED <<nv, nt, group, shape, shapes, mat>>
             [] x.k = "s" -> /\ shapes' = (IF Exported.tris # <<>> THEN Append(shapes, Exported) ELSE shapes)
                             /\ shape' = NoShape /\ group' = <<>> /\ UNCHANGED <<nv, nt, mat>>
Finish == /\ ph = "run" /\ pos > Len(text) /\ ph' = "end"
          /\ shapes' = (IF Exported.tris # <<>> THEN Append(shapes, Exported) ELSE shapes)
          /\ UNCHANGED <<text, pos, nv, nt, group, shape, mat>>
Next == Edit \/ Go \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
FirstShape == IF shapes = <<>> THEN NoShape ELSE shapes[1]
Reads == ph = "end" => LET K == Keys(text) V == Verts(K) IN
            /\ FirstShape.tris = Tris(K, V)
            /\ [i \in 1..Len(FirstShape.keys) |-> FirstShape.keys[i][1]] = [i \in 1..Len(V) |-> V[i][2]]
=============================================================================
