----------------------------- MODULE HandleTrace -----------------------------
(* Recorded histories of mesh handles.  Every event carries what is seen     *)
(* through each handle afterwards, and how many vertices, elements and edges *)
(* are alive.  Data that no handle refers to any more is gone.               *)
EXTENDS Handle, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h, c, next
vars == <<l, h, c, next>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
None == [i \in Hs |-> 0]
Start == h' = None /\ c' = <<>> /\ next' = 1
Init == l = 1 /\ h = None /\ c = <<>> /\ next = 1
Reset == Is("reset") /\ Start

\* what has to be seen for handles H and contents C (C: sequence, position = data)
SeenOk(H, C, S) ==
    /\ \A i \in Hs : S.h[i] = (IF H[i] = 0 THEN <<-2>> ELSE IF H[i] = -1 THEN <<-1>>
                               ELSE LET x == C[H[i]] IN <<Nv(x), x.t, Edges(x), x.tag, 1>>)     \* 1: all lists complete and consistent
    \* two handles show the same object exactly if they refer to the same (non-empty) data
    /\ \A i \in Hs : \A j \in Hs : H[i] > 0 /\ H[j] > 0 /\ C[H[i]].t > 0 /\ C[H[j]].t > 0 => S.same[i][j] = (H[i] = H[j])
    /\ LET U == Used(H) IN
       /\ S.live = <<SumOver(U, [d \in U |-> Nv(C[d])]), SumOver(U, [d \in U |-> C[d].t]), SumOver(U, [d \in U |-> Edges(C[d])])>>
       \* without any handle nothing is left
       /\ U = {} => S.blocks = 0
Seen == SeenOk(h', c', Ev.s) = TRUE
Put(i, d) == h' = [h EXCEPT ![i] = d]
Mod(i, r) == c' = [c EXCEPT ![h[i]] = r] /\ UNCHANGED <<h, next>>

New == Is("new") /\ h[Ev.i] = 0 /\ Put(Ev.i, next) /\ c' = Append(c, Empty) /\ next' = next + 1 /\ Seen
Copy == Is("copyc") /\ h[Ev.i] = 0 /\ h[Ev.j] > 0 /\ Put(Ev.i, h[Ev.j]) /\ UNCHANGED <<c, next>> /\ Seen
Move == Is("movec") /\ h[Ev.i] = 0 /\ h[Ev.j] > 0 /\ h' = [h EXCEPT ![Ev.i] = h[Ev.j], ![Ev.j] = -1] /\ UNCHANGED <<c, next>> /\ Seen
CopyA == Is("copya") /\ h[Ev.i] # 0 /\ Put(Ev.i, h[Ev.j]) /\ UNCHANGED <<c, next>> /\ Seen
MoveA == /\ Is("movea") /\ h[Ev.i] # 0
         /\ h' = IF Ev.i = Ev.j THEN h ELSE [h EXCEPT ![Ev.i] = h[Ev.j], ![Ev.j] = -1]
         /\ UNCHANGED <<c, next>> /\ Seen
Swap == Is("swap") /\ h[Ev.i] > 0 /\ h[Ev.j] > 0 /\ h' = [h EXCEPT ![Ev.i] = h[Ev.j], ![Ev.j] = h[Ev.i]] /\ UNCHANGED <<c, next>> /\ Seen
\* passed by value, stored in a container that is thrown away, returned from a function and assigned back
Through == Is("through") /\ h[Ev.i] > 0 /\ UNCHANGED <<h, c, next>> /\ Seen
Destroy == Is("destroy") /\ h[Ev.i] # 0 /\ Put(Ev.i, 0) /\ UNCHANGED <<c, next>> /\ Seen
Clear == Is("clear") /\ h[Ev.i] > 0 /\ Mod(Ev.i, Empty) /\ Seen
Add == Is("add") /\ h[Ev.i] > 0 /\ LET x == c[h[Ev.i]] IN ~ x.p /\ Mod(Ev.i, [x EXCEPT !.t = @ + 1, !.tag = IF x.t = 0 THEN Ev.tag ELSE @]) /\ Seen
Setup == Is("setup") /\ h[Ev.i] > 0 /\ LET x == c[h[Ev.i]] IN Mod(Ev.i, [x EXCEPT !.l = x.t]) /\ Seen
Prep == Is("prep") /\ h[Ev.i] > 0 /\ LET x == c[h[Ev.i]] IN x.l = x.t /\ ~ x.p /\ Mod(Ev.i, [x EXCEPT !.p = TRUE]) /\ Seen

Next == Reset \/ New \/ Copy \/ Move \/ CopyA \/ MoveA \/ Swap \/ Through \/ Destroy \/ Clear \/ Add \/ Setup \/ Prep
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
