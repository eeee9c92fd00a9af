------------------------------ MODULE Semaphore ------------------------------
(* Counting semaphore seen from outside: tokens are never lost, never         *)
(* invented, and go to the waiters in the order in which they began to wait.  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Threads
VARIABLES
  cnt,      \* free tokens
  pend,     \* operation in progress of each thread
  aslot,    \* [Threads -> {"no","wait","got"}] the thread's asynchronous request
  queued,   \* requests known to wait
  before,   \* requests which must be served before this one
  fin       \* threads which were asked to finish
svars == <<cnt, pend, aslot, queued, before, fin>>

Idle == [op |-> "none", done |-> FALSE, res |-> FALSE, dl |-> 0]
Blocking == {"lock", "lockTm", "lockInt"}
Waits(t) == (pend[t].op \in Blocking /\ ~pend[t].done) \/ aslot[t] = "wait"
Free == UNCHANGED <<aslot, fin>>

Init == /\ cnt = 0 /\ pend = [t \in Threads |-> Idle] /\ aslot = [t \in Threads |-> "no"]
        /\ queued = {} /\ before = [t \in Threads |-> {}] /\ fin = {}

Call(t, op, dl) ==
  /\ pend[t].op = "none"
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, done |-> FALSE, res |-> FALSE, dl |-> dl]]
  /\ before' = IF op \in Blocking \cup {"async"} THEN [before EXCEPT ![t] = queued] ELSE before
  /\ UNCHANGED <<cnt, aslot, queued, fin>>

Block(t) ==
  /\ queued' = IF pend[t].op \in Blocking /\ ~pend[t].done THEN queued \cup {t} ELSE queued
  /\ UNCHANGED <<cnt, pend, aslot, before, fin>>

Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
Leave(t) == queued' = queued \ {t} /\ before' = [u \in Threads |-> IF u = t THEN {} ELSE before[u] \ {t}]
Stay == UNCHANGED <<queued, before>>

Acquire(t) == /\ pend[t].op \in Blocking /\ ~pend[t].done /\ cnt > 0 /\ before[t] = {}
              /\ cnt' = cnt - 1 /\ Done(t, TRUE) /\ Leave(t) /\ Free
GiveUp(t) == /\ pend[t].op = "lockTm" \/ (pend[t].op = "lockInt" /\ t \in fin)
             /\ ~pend[t].done
             /\ Done(t, FALSE) /\ Leave(t) /\ Free /\ UNCHANGED cnt
TryOk(t) == /\ pend[t].op = "try" /\ ~pend[t].done /\ cnt > 0
            /\ cnt' = cnt - 1 /\ Done(t, TRUE) /\ Stay /\ Free
\* a token on its way to a waiter is not free any more
TryFail(t) == /\ pend[t].op = "try" /\ ~pend[t].done
              /\ cnt = 0 \/ \E u \in Threads \ {t} : Waits(u)
              /\ Done(t, FALSE) /\ Stay /\ Free /\ UNCHANGED cnt
Release(t) == /\ pend[t].op = "unlock" /\ ~pend[t].done
              /\ cnt' = cnt + 1 /\ Done(t, TRUE) /\ Stay /\ Free
\* an asynchronous request is registered, granted later, cancelled
Register(t) == /\ pend[t].op = "async" /\ ~pend[t].done
               /\ aslot' = [aslot EXCEPT ![t] = "wait"] /\ queued' = queued \cup {t}
               /\ Done(t, TRUE) /\ UNCHANGED <<cnt, before, fin>>
Grant(t) == /\ aslot[t] = "wait" /\ cnt > 0 /\ before[t] = {}
            /\ cnt' = cnt - 1 /\ aslot' = [aslot EXCEPT ![t] = "got"] /\ Leave(t)
            /\ UNCHANGED <<pend, fin>>
Cancel(t) == /\ pend[t].op = "cancel" /\ ~pend[t].done
             /\ cnt' = IF aslot[t] = "got" THEN cnt + 1 ELSE cnt
             /\ aslot' = [aslot EXCEPT ![t] = "no"] /\ Leave(t)
             /\ Done(t, TRUE) /\ UNCHANGED fin
\* the granted request is taken over by its thread
Await(t) == /\ pend[t].op = "await" /\ ~pend[t].done /\ aslot[t] = "got"
            /\ aslot' = [aslot EXCEPT ![t] = "no"] /\ Done(t, TRUE) /\ Stay /\ UNCHANGED <<cnt, fin>>
Finish(u) == fin' = fin \cup {u} /\ UNCHANGED <<cnt, pend, aslot, queued, before>>

\* the owner of a request looks whether it is granted; a request that can be granted is granted unless somebody is just at it
Poll(t) == /\ pend[t].op = "poll" /\ ~pend[t].done
           /\ \/ aslot[t] = "got" /\ Done(t, TRUE)
              \/ /\ aslot[t] = "wait" /\ Done(t, FALSE)
                 /\ cnt = 0 \/ before[t] # {} \/ \E u \in Threads \ {t} : pend[u].op # "none"
           /\ Stay /\ Free /\ UNCHANGED cnt
Lin(t) == \/ Poll(t) \/ Acquire(t) \/ GiveUp(t) \/ TryOk(t) \/ TryFail(t) \/ Release(t)
          \/ Register(t) \/ Grant(t) \/ Cancel(t) \/ Await(t)

Ret(t, op, r, now) ==
  /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r
  /\ (op = "lockTm" /\ ~r) => now >= pend[t].dl
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<cnt, aslot, queued, before, fin>>

\* nobody may sleep for good while there is a token for him
StuckOK ==
  /\ \A t \in Threads : pend[t].op # "none" =>
       /\ pend[t].op \in {"lock", "lockInt", "await"} /\ ~pend[t].done
       /\ pend[t].op = "lockInt" => t \notin fin
  /\ (\E t \in Threads : Waits(t)) => cnt = 0
  /\ \A t \in Threads : pend[t].op = "await" => aslot[t] = "wait"

(* -------- the design by itself ------------------------------------------ *)
CONSTANTS Tokens, MaxTokens
MInit == Init /\ TRUE
Next ==
  \E t \in Threads :
    \/ \E op \in Blocking \cup {"try"} : aslot[t] = "no" /\ Call(t, op, 0)
    \/ cnt < MaxTokens /\ Call(t, "unlock", 0) /\ \A u \in Threads : pend[u].op # "unlock"
    \/ aslot[t] = "no" /\ Call(t, "async", 0)
    \/ aslot[t] # "no" /\ \E op \in {"cancel", "await", "poll"} : Call(t, op, 0)
    \/ pend[t].op \in Blocking /\ ~pend[t].done /\ cnt = 0 /\ t \notin queued /\ Block(t)
    \/ t \notin fin /\ Finish(t)
    \/ Acquire(t) \/ GiveUp(t) \/ TryOk(t) \/ TryFail(t) \/ Release(t)
    \/ Register(t) \/ Grant(t) \/ Cancel(t) \/ Await(t) \/ Poll(t)
    \/ \E op \in Blocking \cup {"poll", "try", "unlock", "async", "cancel", "await"}, r \in BOOLEAN : Ret(t, op, r, 0)
Spec == Init /\ [][Next]_svars
TypeOK == cnt \in 0..(MaxTokens + Cardinality(Threads)) /\ fin \subseteq Threads
Async1 == \A t \in Threads : aslot[t] = "wait" => t \in queued
NoSelf == \A t \in Threads : t \notin before[t]
\* whoever must be served first is really still waiting
FifoInv == \A t \in Threads : \A u \in before[t] : Waits(u)
=============================================================================
