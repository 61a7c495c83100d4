----------------------------- MODULE VecTrace -----------------------------
(* Recorded calls on vectors as actions on the sequences in `reg`.           *)
EXTENDS LinAlg, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
vars == <<l, reg>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Nil == <<<<0, 0, -1>>>>   \* no vector
Init == l = 1 /\ reg = [o \in 1..4 |-> Nil]
Put(o, v) == reg' = [reg EXCEPT ![o] = v]
Same == UNCHANGED reg
ZeroVec(n) == [i \in 1..n |-> Zero]

Reset == Is("reset") /\ reg' = [o \in 1..4 |-> Nil]
New == Is("new") /\ Put(Ev.o, ZeroVec(Ev.n))
InitList == Is("init") /\ Put(Ev.o, Ev.v)
Set == Is("set") /\ Put(Ev.o, [reg[Ev.o] EXCEPT ![Ev.i + 1] = Ev.v])
Keep == Is("keep") /\ reg[Ev.o][Ev.i + 1] = Ev.v /\ Same
Fill == Is("fill") /\ Put(Ev.o, [i \in 1..Len(reg[Ev.o]) |-> Ev.v])
Swap == Is("swap") /\ reg' = [reg EXCEPT ![Ev.a] = reg[Ev.b], ![Ev.b] = reg[Ev.a]]
Copy == Is("copy") /\ Put(Ev.d, reg[Ev.s])
Move == Is("move") /\ reg' = [reg EXCEPT ![Ev.d] = reg[Ev.s], ![Ev.s] = Nil]
Resize == Is("resize") /\ LET v == reg[Ev.o] IN Put(Ev.o, [i \in 1..Ev.n |-> IF i <= Len(v) THEN v[i] ELSE Zero])
Obs == Is("obs") /\ LET v == reg[Ev.o] IN v # Nil /\ Ev.n = Len(v) /\ Ev.at = v /\ Ev.lat = v /\ Ev.br = v /\ Ev.it = v /\ Ev.post = v /\ Same

Elem(k, a, b) == CASE k = "add" -> Add(a, b) [] k = "sub" -> Sub(a, b) [] k = "mul" -> Mul(a, b) [] k = "div" -> Div(a, b)
BinOp == Is("bin") /\ LET a == reg[Ev.a] b == reg[Ev.b] IN
            IF Len(a) = Len(b) THEN Ev.exc = "ok" /\ Put(Ev.d, [i \in 1..Len(a) |-> Elem(Ev.k, a[i], b[i])])
            ELSE Ev.exc = "VectorSizeMismatch" /\ Same
Scal == Is("scal") /\ LET a == reg[Ev.a] IN
            Put(Ev.d, [i \in 1..Len(a) |-> IF Ev.side = "r" THEN Elem(Ev.k, a[i], Ev.v) ELSE Elem(Ev.k, Ev.v, a[i])])
NegOp == Is("neg") /\ Put(Ev.d, VMap(reg[Ev.a], Neg))
Recip == Is("recip") /\ Put(Ev.o, VMap(reg[Ev.o], Inv))
DotEv == Is("dot") /\ LET a == reg[Ev.a] b == reg[Ev.b] IN
            /\ IF Len(a) = Len(b) THEN Ev.exc = "ok" /\ Ev.r = Dot(a, b) ELSE Ev.exc = "VectorSizeMismatch"
            /\ Same
\* mag()^2 = v.v, mag() >= 0; normalized() * mag() = v and normalized() has length 1
Mag == Is("mag") /\ LET v == reg[Ev.o] IN
            /\ Ev.m2 = Dot(v, v) /\ ~ Ev.neg /\ Ev.nz = (\E i \in 1..Len(v) : ~ IsZero(v[i]))
            /\ Ev.nz => Ev.nrm = v /\ Ev.unit = One
            /\ Same
Cmp == Is("cmp") /\ LET a == reg[Ev.a] b == reg[Ev.b] IN
            /\ IF Len(a) = Len(b) THEN Ev.exc = "ok" /\ Ev.exc2 = "ok" /\ Ev.eq = (a = b) /\ Ev.ne = (a # b)
               ELSE Ev.exc = "VectorSizeMismatch" /\ Ev.exc2 = "VectorSizeMismatch"
            /\ Same
\* a copy is equal, and no longer once one entry differs
Cmp1 == Is("cmp1") /\ Ev.same /\ ~ Ev.eq /\ Ev.ne /\ Same
Slice == Is("slice") /\ LET v == reg[Ev.o] IN
            /\ Ev.r = CASE Ev.k = "left" -> SubSeq(v, 1, Ev.i + 1)
                        [] Ev.k = "right" -> SubSeq(v, Ev.i + 1, Len(v))
                        [] Ev.k = "mid" -> SubSeq(v, Ev.i + 1, IMin(Ev.j, Len(v)))
            /\ Same
HasEv == Is("has") /\ LET v == reg[Ev.o] IN Ev.r = (\E i \in (Ev.i + 1)..IMin(Ev.j, Len(v)) : v[i] = Ev.v) /\ Same

Next == \/ Reset \/ New \/ InitList \/ Set \/ Keep \/ Fill \/ Swap \/ Copy \/ Move \/ Resize \/ Obs \/ BinOp \/ Scal
        \/ NegOp \/ Recip \/ DotEv \/ Mag \/ Cmp \/ Cmp1 \/ Slice \/ HasEv
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
