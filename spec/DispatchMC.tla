----------------------------- MODULE DispatchMC -----------------------------
(* The dispatch of a batch of events found by the wait of a loop, while the      *)
(* callbacks add, remove and update descriptors, and close files whose numbers   *)
(* are reused by other files. A registration is stamped with the step of the     *)
(* loop it was made in.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Fds, MaxSteps, MaxOps,
          NoStamp,      \* variant: registrations made during the step are notified too
          NoMask,       \* variant: events no longer requested are notified
          KeepRemoved   \* variant: removed descriptors are still notified

Ev == {"in", "out"}
No == [id |-> 0, ev |-> {}, step |-> 0]

VARIABLES reg,       \* registration of each descriptor: [id, ev, step], id 0 if none
          ids,       \* registrations ever made
          rdy,       \* of each registration: events its file is ready for (files never stop to be ready here)
          step, batch, ops,
          incb,      \* in a callback
          calls      \* calls of the step: [id, ev (notified), reqd (requested now), at (requested at the wait), live]
vars == <<reg, ids, rdy, step, batch, ops, incb, calls>>

Init == /\ reg = [f \in Fds |-> No] /\ ids = 0 /\ rdy = <<>> /\ step = 0 /\ batch = <<>> /\ ops = 0
        /\ incb = FALSE /\ calls = <<>>

May == (batch = <<>> \/ incb) /\ ops < MaxOps
Add(f, e, r) == /\ May /\ reg[f].id = 0 /\ ids' = ids + 1
                /\ reg' = [reg EXCEPT ![f] = [id |-> ids + 1, ev |-> e, step |-> step]]
                /\ rdy' = Append(rdy, r) /\ ops' = ops + 1 /\ UNCHANGED <<step, batch, incb, calls>>
Remove(f) == /\ May /\ reg[f].id # 0 /\ reg' = [reg EXCEPT ![f] = No] /\ ops' = ops + 1
             /\ UNCHANGED <<ids, rdy, step, batch, incb, calls>>
Update(f, e) == /\ May /\ reg[f].id # 0 /\ reg' = [reg EXCEPT ![f].ev = e] /\ ops' = ops + 1
                /\ UNCHANGED <<ids, rdy, step, batch, incb, calls>>

\* the wait: the descriptors ready for a requested event, in any order
Perms(S) == {p \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
Hot(f) == reg[f].id # 0 /\ (reg[f].ev \cap rdy[reg[f].id]) # {}
Wait == /\ batch = <<>> /\ ~incb /\ step < MaxSteps
        /\ step' = step + 1 /\ calls' = <<>>
        /\ \E p \in Perms({f \in Fds : Hot(f)}) :
             batch' = [i \in DOMAIN p |-> [f |-> p[i], ev |-> reg[p[i]].ev \cap rdy[reg[p[i]].id], id |-> reg[p[i]].id]]
        /\ UNCHANGED <<reg, ids, rdy, ops, incb>>
Take == /\ batch # <<>> /\ ~incb
        /\ LET b == Head(batch)
               r == reg[b.f]
               e == IF NoMask THEN b.ev ELSE b.ev \cap r.ev
               ok == IF KeepRemoved THEN TRUE
                     ELSE r.id # 0 /\ (NoStamp \/ r.step < step) /\ e # {} IN
           /\ IF ok THEN /\ calls' = Append(calls, [id |-> r.id, was |-> b.id, ev |-> e, req |-> r.ev, live |-> r.id # 0])
                         /\ incb' = TRUE /\ UNCHANGED batch
              ELSE batch' = Tail(batch) /\ UNCHANGED <<calls, incb>>
        /\ UNCHANGED <<reg, ids, rdy, step, ops>>
EndCb == /\ incb /\ incb' = FALSE /\ batch' = Tail(batch) /\ UNCHANGED <<reg, ids, rdy, step, ops, calls>>

Sub == {{"in"}, {"out"}, {"in", "out"}}
Next == \/ \E f \in Fds, e \in Sub, r \in Sub : Add(f, e, r)
        \/ \E f \in Fds : Remove(f)
        \/ \E f \in Fds, e \in Sub : Update(f, e)
        \/ Wait \/ Take \/ EndCb
Spec == Init /\ [][Next]_vars

\* a callback is that of the registration the event was found for, registered still, for requested events only
Right == \A i \in DOMAIN calls : LET c == calls[i] IN
           c.live /\ c.id = c.was /\ c.ev # {} /\ c.ev \subseteq c.req /\ c.ev \subseteq rdy[c.id]
OnceEach == \A i, j \in DOMAIN calls : i < j => calls[i].id # calls[j].id
=============================================================================
