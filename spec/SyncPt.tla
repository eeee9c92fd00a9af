------------------------------- MODULE SyncPt -------------------------------
(* SyncPt: slots are registered, notified one by one (oldest first, or newest*)
(* first in the stack order) or all at once, or removed.  A slot is signalled*)
(* exactly when a notification picked it.                                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Slots
VARIABLES q, sig, val, pend
yvars == <<q, sig, val, pend>>
Idle == [op |-> "none", s |-> 0, done |-> FALSE, res |-> FALSE, v |-> 0, dl |-> 0]
Init == q = <<>> /\ sig = {} /\ val = [s \in Slots |-> 0] /\ pend = [t \in Threads |-> Idle]
In(s) == \E i \in 1..Len(q) : q[i] = s
Del(s) == SelectSeq(q, LAMBDA x : x # s)
Call(t, op, s, v, dl) ==
  /\ pend[t].op = "none"
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, s |-> s, done |-> FALSE, res |-> FALSE, v |-> v, dl |-> dl]]
  /\ UNCHANGED <<q, sig, val>>
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
P(t, op) == pend[t].op = op /\ ~pend[t].done
Add(t) == /\ P(t, "add")
          /\ LET s == pend[t].s IN
             IF In(s) \/ s \in sig THEN Done(t, FALSE) /\ UNCHANGED <<q, sig, val>>
             ELSE q' = Append(q, s) /\ Done(t, TRUE) /\ UNCHANGED <<sig, val>>
Remove(t) == /\ P(t, "remove")
             /\ q' = Del(pend[t].s) /\ Done(t, In(pend[t].s)) /\ UNCHANGED <<sig, val>>
NotifyOne(t, stack) ==
  /\ P(t, "one")
  /\ IF q = <<>> THEN Done(t, FALSE) /\ UNCHANGED <<q, sig, val>>
     ELSE LET s == IF stack THEN q[Len(q)] ELSE q[1] IN
          q' = Del(s) /\ sig' = sig \cup {s} /\ val' = [val EXCEPT ![s] = pend[t].v] /\ Done(t, TRUE)
NotifyAll(t) ==
  /\ P(t, "all")
  /\ Done(t, q # <<>>) /\ q' = <<>>
  /\ sig' = sig \cup {s \in Slots : In(s)}
  /\ val' = [s \in Slots |-> IF In(s) THEN pend[t].v ELSE val[s]]
Look(t) == /\ P(t, "sig") /\ Done(t, pend[t].s \in sig) /\ UNCHANGED <<q, sig, val>>
Empty(t) == /\ P(t, "empty") /\ Done(t, q = <<>>) /\ UNCHANGED <<q, sig, val>>
Wait(t) == /\ P(t, "wait") /\ pend[t].s \in sig /\ Done(t, TRUE) /\ UNCHANGED <<q, sig, val>>
GiveUp(t) == /\ P(t, "waitTm") /\ Done(t, pend[t].s \in sig) /\ UNCHANGED <<q, sig, val>>
Reset(t) == /\ P(t, "reset") /\ Done(t, pend[t].s \in sig) /\ sig' = sig \ {pend[t].s} /\ UNCHANGED <<q, val>>
Lin(t, stack) == Add(t) \/ Remove(t) \/ NotifyOne(t, stack) \/ NotifyAll(t) \/ Look(t) \/ Empty(t) \/ Wait(t) \/ GiveUp(t) \/ Reset(t)
Ret(t, op, r, v, now) ==
  /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r
  /\ (op \in {"wait", "waitTm"} /\ r /\ v # 0) => v = val[pend[t].s]
  /\ (op = "waitTm" /\ ~r) => now >= pend[t].dl
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<q, sig, val>>
StuckOK == /\ \E t \in Threads : pend[t].op # "none"
           /\ \A t \in Threads : pend[t].op # "none" => P(t, "wait") /\ pend[t].s \notin sig
CONSTANT Stack
Next == \E t \in Threads :
   \/ \E s \in Slots, op \in {"add", "remove", "sig", "wait", "waitTm", "reset"} : Call(t, op, s, 0, 0)
   \/ \E op \in {"one", "all", "empty"} : Call(t, op, 0, t, 0)
   \/ Add(t) \/ Remove(t) \/ NotifyOne(t, Stack) \/ NotifyAll(t) \/ Look(t) \/ Empty(t) \/ Wait(t) \/ GiveUp(t) \/ Reset(t)
   \/ \E op \in {"add", "remove", "sig", "wait", "waitTm", "reset", "one", "all", "empty"}, r \in BOOLEAN : Ret(t, op, r, 0, 0)
Spec == Init /\ [][Next]_yvars
TypeOK == /\ \A i \in 1..Len(q) : q[i] \in Slots
NoDup == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Exclusive == \A s \in sig : ~In(s)
=============================================================================
