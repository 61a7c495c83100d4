----------------------------- MODULE HandleModel -----------------------------
(* The handle operations as the code performs them: a reference count per    *)
(* data block, incremented by copies and decremented (and freed at zero) by  *)
(* destruction and assignment.  Histories are written out for the driver:    *)
(* `hist` is not part of the state that TLC compares (VIEW), so every        *)
(* transition of the handle state graph is reached once, by a short history. *)
EXTENDS Handle, TLC, Json, CSV, IOUtils
CONSTANTS MaxT, Emit
VARIABLES h, refs, alive, t, st, bad, hist      \* st: "raw", "linked" or "prep"
vars == <<h, refs, alive, t, st, bad, hist>>
View == <<h, refs, alive, t, st, bad>>
D == 1..4
Init == /\ h = [i \in Hs |-> 0] /\ refs = [d \in D |-> 0] /\ alive = [d \in D |-> FALSE]
        /\ t = [d \in D |-> 0] /\ st = [d \in D |-> "raw"] /\ bad = FALSE /\ hist = <<>>
Free == CHOOSE d \in D : ~ alive[d] /\ \A e \in D : ~ alive[e] => d <= e
Op(o) == hist' = Append(hist, o) /\ (Emit => CSVWrite("%1$s", <<ToJson(<<"handles", hist \o <<o>>>>)>>, IOEnv.EMIT))
\* drop the reference of handle i and give it the data n, which got `more` new references; all on the values after each other
Drop(r, a, d) == \* (references, alive, double free) after one decrement
    IF d <= 0 THEN <<r, a, FALSE>>
    ELSE LET r1 == [r EXCEPT ![d] = @ - 1] IN IF r1[d] = 0 THEN <<r1, [a EXCEPT ![d] = FALSE], ~ a[d]>> ELSE <<r1, a, ~ a[d] \/ r1[d] < 0>>
Inc(r, d) == IF d <= 0 THEN r ELSE [r EXCEPT ![d] = @ + 1]
Wipe(T, A) == [d \in D |-> IF A[d] THEN T[d] ELSE 0]
WipeS(S, A) == [d \in D |-> IF A[d] THEN S[d] ELSE "raw"]
New(i) == /\ h[i] = 0 /\ LET d == Free IN h' = [h EXCEPT ![i] = d] /\ refs' = [refs EXCEPT ![d] = 1] /\ alive' = [alive EXCEPT ![d] = TRUE]
          /\ UNCHANGED <<t, st, bad>> /\ Op(<<"new", i, 0>>)
CopyC(i, j) == /\ h[i] = 0 /\ h[j] > 0 /\ h' = [h EXCEPT ![i] = h[j]] /\ refs' = Inc(refs, h[j])
               /\ UNCHANGED <<alive, t, st, bad>> /\ Op(<<"copyc", i, j>>)
MoveC(i, j) == /\ h[i] = 0 /\ h[j] > 0 /\ h' = [h EXCEPT ![i] = h[j], ![j] = -1]
               /\ UNCHANGED <<refs, alive, t, st, bad>> /\ Op(<<"movec", i, j>>)
CopyA(i, j) == /\ h[i] # 0 /\ (h[j] > 0 \/ (i = j /\ h[j] # 0))
               /\ IF h[i] = h[j] THEN UNCHANGED <<h, refs, alive, t, st, bad>>
                  ELSE LET x == Drop(refs, alive, h[i]) IN
                       /\ refs' = Inc(x[1], h[j]) /\ alive' = x[2] /\ bad' = (bad \/ x[3]) /\ h' = [h EXCEPT ![i] = h[j]]
                       /\ t' = Wipe(t, x[2]) /\ st' = WipeS(st, x[2])
               /\ Op(<<"copya", i, j>>)
MoveA(i, j) == /\ h[i] # 0 /\ (h[j] > 0 \/ (i = j /\ h[j] # 0))
               /\ IF i = j THEN UNCHANGED <<h, refs, alive, t, st, bad>>
                  ELSE LET x == Drop(refs, alive, h[i]) IN
                       /\ refs' = x[1] /\ alive' = x[2] /\ bad' = (bad \/ x[3]) /\ h' = [h EXCEPT ![i] = h[j], ![j] = -1]
                       /\ t' = Wipe(t, x[2]) /\ st' = WipeS(st, x[2])
               /\ Op(<<"movea", i, j>>)
Destroy(i) == /\ h[i] # 0 /\ LET x == Drop(refs, alive, h[i]) IN
                 /\ refs' = x[1] /\ alive' = x[2] /\ bad' = (bad \/ x[3]) /\ h' = [h EXCEPT ![i] = 0]
                 /\ t' = Wipe(t, x[2]) /\ st' = WipeS(st, x[2])
              /\ Op(<<"destroy", i, 0>>)
Clear(i) == h[i] > 0 /\ t' = [t EXCEPT ![h[i]] = 0] /\ st' = [st EXCEPT ![h[i]] = "raw"] /\ UNCHANGED <<h, refs, alive, bad>> /\ Op(<<"clear", i, 0>>)
Add(i) == h[i] > 0 /\ t[h[i]] < MaxT /\ st[h[i]] # "prep" /\ t' = [t EXCEPT ![h[i]] = @ + 1] /\ st' = [st EXCEPT ![h[i]] = "raw"]
          /\ UNCHANGED <<h, refs, alive, bad>> /\ Op(<<"add", i, 0>>)
Setup(i) == h[i] > 0 /\ t[h[i]] > 0 /\ st[h[i]] = "raw" /\ st' = [st EXCEPT ![h[i]] = "linked"] /\ UNCHANGED <<h, refs, alive, t, bad>> /\ Op(<<"setup", i, 0>>)
Prep(i) == h[i] > 0 /\ st[h[i]] = "linked" /\ st' = [st EXCEPT ![h[i]] = "prep"] /\ UNCHANGED <<h, refs, alive, t, bad>> /\ Op(<<"prep", i, 0>>)
Next == \E i \in Hs : \/ New(i) \/ Destroy(i) \/ Clear(i) \/ Add(i) \/ Setup(i) \/ Prep(i)
                      \/ \E j \in Hs : CopyC(i, j) \/ MoveC(i, j) \/ CopyA(i, j) \/ MoveA(i, j)
Spec == Init /\ [][Next]_vars
Counted == \A d \in D : refs[d] = Cardinality({i \in Hs : h[i] = d}) /\ (alive[d] <=> refs[d] > 0)
NeverTwice == ~ bad
=============================================================================
