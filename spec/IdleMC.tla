------------------------------- MODULE IdleMC ------------------------------
(* The algorithm of the idle queue of a loop, step by step: threads that add   *)
(* entries, wake the loop up or signal an event, and a loop thread that waits  *)
(* for its idle event, its wake-up or the user's event, takes one entry per    *)
(* step and signals its own event again when entries remain, or flushes, or    *)
(* removes entries and clears the event when the list is empty.                *)
(* Checked: it refines what LoopSched promises to users (each entry taken once *)
(* in the order of insertion) and no interleaving loses a wake-up.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads,     \* adding threads
          Adds,        \* entries each adds
          SignalFirst, \* variant: signal before inserting
          NoResignal,  \* variant: no signal when entries remain after a step
          ClearAlways, \* variant: a removal clears the event even if entries remain
          MaxOps       \* flushes and removals

Ids == Threads \X (1 .. Adds)

VARIABLES pc,      \* of each thread
          nadd,    \* entries begun by each thread
          lock,    \* holder of the mutex: "none", a thread or "loop"
          list,    \* the entries, in order
          evt,     \* counter of the eventfd is not zero
          lpc,     \* loop thread: "idle", "wait", "cb1"...
          cur,     \* entry whose callback is to be called
          ran,     \* entries whose callback was called, in order
          removed, \* entries removed
          ins,     \* order of insertion
          mode,    \* what the loop thread does: "step", "flush", "remove"
          nops     \* flushes and removals so far
vars == <<pc, nadd, lock, list, evt, lpc, cur, ran, removed, ins, mode, nops>>

Init == /\ pc = [t \in Threads |-> "start"] /\ nadd = [t \in Threads |-> 0]
        /\ lock = "none" /\ list = <<>> /\ evt = FALSE
        /\ lpc = "top" /\ cur = <<>> /\ ran = <<>> /\ removed = {} /\ ins = <<>> /\ mode = "step" /\ nops = 0

(* pomp_loop_idle_add: lock, insert, unlock, signal *)
Begin(t) == /\ pc[t] = "start" /\ nadd[t] < Adds
            /\ nadd' = [nadd EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = IF SignalFirst THEN "sig" ELSE "lock"]
            /\ UNCHANGED <<lock, list, evt, lpc, cur, ran, removed, ins, mode, nops>>
Lock(t) == /\ pc[t] = "lock" /\ lock = "none" /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "ins"]
           /\ UNCHANGED <<nadd, list, evt, lpc, cur, ran, removed, ins, mode, nops>>
Insert(t) == /\ pc[t] = "ins" /\ list' = Append(list, <<t, nadd[t]>>) /\ ins' = Append(ins, <<t, nadd[t]>>)
             /\ pc' = [pc EXCEPT ![t] = "unlock"]
             /\ UNCHANGED <<nadd, lock, evt, lpc, cur, ran, removed, mode, nops>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = "none" /\ pc' = [pc EXCEPT ![t] = IF SignalFirst THEN "start" ELSE "sig"]
             /\ UNCHANGED <<nadd, list, evt, lpc, cur, ran, removed, ins, mode, nops>>
Signal(t) == /\ pc[t] = "sig" /\ evt' = TRUE /\ pc' = [pc EXCEPT ![t] = IF SignalFirst THEN "lock" ELSE "start"]
             /\ UNCHANGED <<nadd, lock, list, lpc, cur, ran, removed, ins, mode, nops>>

(* the loop thread *)
LTop == /\ lpc = "top" /\ \E m \in {"step", "flush", "remove"} :
             /\ mode' = m /\ lpc' = IF m = "step" THEN "wait" ELSE "lock"
             \* flushes and removals happen now and then only, so that they do not stand for the steps
             /\ nops' = IF m = "step" THEN nops ELSE nops + 1
             /\ m # "step" => nops < MaxOps
        /\ UNCHANGED <<pc, nadd, lock, list, evt, cur, ran, removed, ins>>
\* blocks until the event is signalled; then reads it
LWait == /\ lpc = "wait" /\ evt /\ lpc' = "read" /\ UNCHANGED <<pc, nadd, lock, list, evt, cur, ran, removed, ins, mode, nops>>
LRead == /\ lpc = "read" /\ evt' = FALSE /\ lpc' = "lock" /\ UNCHANGED <<pc, nadd, lock, list, cur, ran, removed, ins, mode, nops>>
LLock == /\ lpc = "lock" /\ lock = "none" /\ lock' = "loop" /\ lpc' = "look"
         /\ UNCHANGED <<pc, nadd, list, evt, cur, ran, removed, ins, mode, nops>>
LLook == /\ lpc = "look"
         /\ IF mode = "remove"
            THEN \E i \in {0} \cup DOMAIN list :           \* the entry removed, if any
                   /\ list' = IF i = 0 THEN list ELSE SubSeq(list, 1, i - 1) \o SubSeq(list, i + 1, Len(list))
                   /\ removed' = IF i = 0 THEN removed ELSE removed \cup {list[i]}
                   /\ lpc' = "clear" /\ UNCHANGED <<cur, lock>>
            ELSE IF list = <<>>
            THEN /\ lpc' = IF mode = "flush" THEN "clear" ELSE "unlock"
                 /\ UNCHANGED <<list, cur, lock, removed>>
            ELSE /\ cur' = Head(list) /\ list' = Tail(list) /\ lock' = "none" /\ lpc' = "call"
                 /\ UNCHANGED removed
         /\ UNCHANGED <<pc, nadd, evt, ran, ins, mode, nops>>
LCall == /\ lpc = "call" /\ ran' = Append(ran, cur) /\ cur' = <<>> /\ lpc' = IF mode = "flush" THEN "lock" ELSE "relock"
         /\ UNCHANGED <<pc, nadd, lock, list, evt, removed, ins, mode, nops>>
LRelock == /\ lpc = "relock" /\ lock = "none" /\ lock' = "loop" /\ lpc' = "resig"
           /\ UNCHANGED <<pc, nadd, list, evt, cur, ran, removed, ins, mode, nops>>
LResig == /\ lpc = "resig" /\ evt' = (evt \/ (list # <<>> /\ ~NoResignal)) /\ lpc' = "unlock"
          /\ UNCHANGED <<pc, nadd, lock, list, cur, ran, removed, ins, mode, nops>>
LClear == /\ lpc = "clear" /\ evt' = (evt /\ list # <<>> /\ ~ClearAlways) /\ lpc' = "unlock"
          /\ UNCHANGED <<pc, nadd, lock, list, cur, ran, removed, ins, mode, nops>>
LUnlock == /\ lpc = "unlock" /\ lock' = "none" /\ lpc' = "top"
           /\ UNCHANGED <<pc, nadd, list, evt, cur, ran, removed, ins, mode, nops>>

Loop == LTop \/ LWait \/ LRead \/ LLock \/ LLook \/ LCall \/ LRelock \/ LResig \/ LClear \/ LUnlock
Thread(t) == Begin(t) \/ Lock(t) \/ Insert(t) \/ Unlock(t) \/ Signal(t)
Next == Loop \/ \E t \in Threads : Thread(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop) /\ \A t \in Threads : WF_vars(Thread(t)) /\ SF_vars(Lock(t))
        /\ SF_vars(LLock) /\ SF_vars(LRelock)

Set(q) == {q[i] : i \in DOMAIN q}
\* each entry runs at most once, in the order of insertion, removed ones never
Once == \A i, j \in DOMAIN ran : i < j => ran[i] # ran[j]
NeverRemoved == Set(ran) \cap removed = {}
Sel(q, S) == LET in(x) == x \in S IN SelectSeq(q, in)
InOrder == ran = Sel(ins, Set(ran))
\* nobody is blocked for ever with something to do: an entry in the list while the loop thread waits means
\* that the event is signalled or that the thread that inserted it is about to signal it
NoLostWakeup == (lpc = "wait" /\ list # <<>> /\ ~evt) => \E t \in Threads : pc[t] \in {"unlock", "sig"}
Mutex == (lock = "loop") = (lpc \in {"look", "resig", "clear", "unlock"} /\ lock = "loop")
\* liveness: everything inserted and not removed runs
AllRun == \A id \in Ids : [](id \in Set(ins) => <>(id \in Set(ran) \cup removed))
=============================================================================
