-------------------------------- MODULE Weak --------------------------------
(* Weak references to one object: a lock keeps the object from going; the    *)
(* owner which sets the target to null waits until nobody holds a lock.      *)
EXTENDS Naturals
CONSTANTS Threads, MaxLocks
VARIABLES state, locks, pend
wvars == <<state, locks, pend>>
Idle == [op |-> "none", done |-> FALSE, res |-> FALSE]
Init == state = "live" /\ locks = [t \in Threads |-> 0] /\ pend = [t \in Threads |-> Idle]
Call(t, op) == /\ pend[t].op = "none" /\ pend' = [pend EXCEPT ![t] = [op |-> op, done |-> FALSE, res |-> FALSE]] /\ UNCHANGED <<state, locks>>
P(t, op) == pend[t].op = op /\ ~pend[t].done
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
\* n: how many locks to the object t holds; a lock that failed needs no unlock of the object
Lock(t) == /\ P(t, "lock") /\ Done(t, state = "live") /\ UNCHANGED state
           /\ locks' = IF state = "live" THEN [locks EXCEPT ![t] = @ + 1] ELSE locks
Unlock(t) == /\ P(t, "unlock") /\ Done(t, TRUE) /\ UNCHANGED state
             /\ locks' = IF locks[t] > 0 THEN [locks EXCEPT ![t] = @ - 1] ELSE locks
Close(t) == P(t, "null") /\ state = "live" /\ state' = "closing" /\ UNCHANGED <<locks, pend>>
Gone(t) == /\ P(t, "null") /\ state # "live" /\ (\A u \in Threads : locks[u] = 0) /\ Done(t, TRUE) /\ state' = "gone" /\ UNCHANGED locks
Lin(t) == Lock(t) \/ Unlock(t) \/ Close(t) \/ Gone(t)
Ret(t, op, r) == /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<state, locks>>
Next == \E t \in Threads : \/ locks[t] < MaxLocks /\ Call(t, "lock")
                           \/ locks[t] > 0 /\ Call(t, "unlock")
                           \/ locks[t] = 0 /\ (\A u \in Threads : pend[u].op # "null") /\ Call(t, "null")
                           \/ Lock(t) \/ Unlock(t) \/ Close(t) \/ Gone(t)
                           \/ \E r \in BOOLEAN : pend[t].op # "none" /\ Ret(t, pend[t].op, r)
Spec == Init /\ [][Next]_wvars
SafeGone == state = "gone" => \A t \in Threads : locks[t] = 0
OneWay == [][(state = "gone" => state' = "gone") /\ (state = "closing" => state' # "live")]_wvars
=============================================================================
