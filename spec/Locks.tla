------------------------------- MODULE Locks -------------------------------
(* Exclusive locks of LightSpeed: FastLock, FastLockR, MicroLock, SpinLock,  *)
(* SpinLockRecursive and Mutex, seen from outside.  An operation is called,  *)
(* takes effect in one internal step (Lin...) and returns.                   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Threads

VARIABLES
  holder,   \* 0 = free, else the owning thread
  depth,    \* number of nested acquisitions of the holder
  pend,     \* [Threads -> record]: the operation in progress
  queued,   \* threads known to be parked in the lock's queue
  before    \* [Threads -> SUBSET Threads]: must be served earlier (FIFO)

lvars == <<holder, depth, pend, queued, before>>

Idle == [op |-> "none", done |-> FALSE, res |-> FALSE, dl |-> 0, n |-> 1]
\* "relock" takes back the n levels which "unlockAll" gave up
Blocking == {"lock", "lockTm", "relock"}
Tries == {"try", "tryRelock"}

Init ==
  /\ holder = 0 /\ depth = 0 /\ queued = {}
  /\ pend = [t \in Threads |-> Idle]
  /\ before = [t \in Threads |-> {}]

Call(t, op, dl, n) ==
  /\ pend[t].op = "none"
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, done |-> FALSE, res |-> FALSE, dl |-> dl, n |-> n]]
  /\ before' = [before EXCEPT ![t] = IF op \in Blocking THEN queued ELSE {}]
  /\ UNCHANGED <<holder, depth, queued>>

\* the scheduler reports that t really sleeps now
Block(t) ==
  /\ queued' = IF pend[t].op \in Blocking /\ ~pend[t].done THEN queued \cup {t} ELSE queued
  /\ UNCHANGED <<holder, depth, pend, before>>

Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
Leave(t) == /\ queued' = queued \ {t}
            /\ before' = [u \in Threads |-> before[u] \ {t}]
Stay == UNCHANGED <<queued, before>>

Levels(t) == pend[t].n   \* asked for at once
MayTake(t, rec) == holder = 0 \/ (rec /\ holder = t)

Acquire(t, rec, fifo) ==
  /\ pend[t].op \in Blocking /\ ~pend[t].done
  /\ MayTake(t, rec)
  /\ (fifo /\ holder = 0) => before[t] = {}
  /\ pend[t].op = "relock" => holder = 0
  /\ holder' = t /\ depth' = depth + Levels(t)
  /\ Done(t, TRUE) /\ Leave(t)

\* a timed wait gives up; the deadline is checked when it returns
GiveUp(t) ==
  /\ pend[t].op = "lockTm" /\ ~pend[t].done
  /\ Done(t, FALSE) /\ Leave(t)
  /\ UNCHANGED <<holder, depth>>

TryOk(t, rec) ==
  /\ pend[t].op \in Tries /\ ~pend[t].done
  /\ MayTake(t, rec) /\ (pend[t].op = "tryRelock" => holder = 0)
  /\ holder' = t /\ depth' = depth + Levels(t)
  /\ Done(t, TRUE) /\ Stay

\* refusing is right while somebody owns the lock, or is about to get it
TryFail(t, rec) ==
  /\ pend[t].op \in Tries /\ ~pend[t].done
  /\ \/ holder # 0 /\ ~(rec /\ holder = t)
     \/ holder = 0 /\ \E u \in Threads \ {t} : pend[u].op \in Blocking /\ ~pend[u].done
  /\ Done(t, FALSE) /\ Stay
  /\ UNCHANGED <<holder, depth>>

Release(t) ==
  /\ pend[t].op = "unlock" /\ ~pend[t].done
  /\ holder = t
  /\ depth' = depth - 1
  /\ holder' = IF depth = 1 THEN 0 ELSE t
  /\ Done(t, TRUE) /\ Stay

\* all levels at once; the number of levels is reported
ReleaseAll(t) ==
  /\ pend[t].op = "unlockAll" /\ ~pend[t].done
  /\ holder = t
  /\ depth' = 0 /\ holder' = 0
  /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = TRUE, ![t].n = depth] /\ Stay

Lin(t, rec, fifo) ==
  \/ Acquire(t, rec, fifo) \/ GiveUp(t)
  \/ TryOk(t, rec) \/ TryFail(t, rec) \/ Release(t) \/ ReleaseAll(t)

Ret(t, op, r, now, n) ==
  /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r
  /\ op = "unlockAll" => n = pend[t].n
  /\ (op = "lockTm" /\ ~r) => now >= pend[t].dl
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<holder, depth, queued, before>>

\* No thread can run any more.  Right only if nobody is owed anything.
StuckOK(rec) ==
  /\ \E t \in Threads : pend[t].op # "none"
  /\ \A t \in Threads : pend[t].op # "none" =>
        pend[t].op \in {"lock", "relock"} /\ ~pend[t].done /\ ~MayTake(t, rec)

(* ---- the design by itself: every thread may do anything legal ---------- *)
CONSTANTS Rec, Fifo, MaxDepth
Ops == Blocking \cup Tries \cup {"unlock", "unlockAll"}
Next ==
  \E t \in Threads :
    \/ \E op \in {"lock", "lockTm", "try"} :
          /\ (holder = t => (Rec /\ depth < MaxDepth))
          /\ Call(t, op, 0, 1)
    \/ holder = t /\ Call(t, "unlock", 0, 1)
    \/ holder = t /\ Call(t, "unlockAll", 0, 1)
    \/ holder # t /\ \E op \in {"relock", "tryRelock"}, n \in 1..(IF Rec THEN MaxDepth ELSE 1) : Call(t, op, 0, n)
    \/ pend[t].op \in Blocking /\ ~pend[t].done /\ holder \notin {0, t} /\ t \notin queued /\ Block(t)
    \/ Acquire(t, Rec, Fifo) \/ TryOk(t, Rec) \/ TryFail(t, Rec) \/ Release(t) \/ ReleaseAll(t)
    \/ GiveUp(t)
    \/ \E op \in Ops, r \in BOOLEAN : Ret(t, op, r, 0, pend[t].n)

Spec == Init /\ [][Next]_lvars
Fair == \A t \in Threads :
           /\ WF_lvars(Acquire(t, Rec, Fifo)) /\ WF_lvars(TryOk(t, Rec) \/ TryFail(t, Rec))
           /\ WF_lvars(Release(t) \/ ReleaseAll(t)) /\ WF_lvars(\E op \in Ops, r \in BOOLEAN : Ret(t, op, r, 0, pend[t].n))
           /\ WF_lvars(holder = t /\ pend[t].op = "none" /\ Call(t, "unlock", 0, 1))
LiveSpec == Spec /\ Fair

TypeOK == holder \in Threads \cup {0} /\ depth \in 0..MaxDepth /\ (holder = 0 <=> depth = 0)
\* an owner is somebody who was told so or is just being told
OwnerKnows == \A t \in Threads : (pend[t].op \in Blocking \cup Tries /\ pend[t].done /\ pend[t].res) => holder = t
NoRecursion == ~Rec => depth <= 1
\* whoever sleeps before I even ask is served before me
FifoInv == Fifo => \A t \in Threads : \A u \in before[t] : pend[u].op \in Blocking /\ ~pend[u].done
\* a lock that is free is given to somebody who waits (FIFO: to everybody in turn)
Handover == [](\A t \in Threads : TRUE) /\ ([]<>(holder = 0) \/ <>[](holder # 0))
Progress == \A t \in Threads : (Fifo /\ ~Rec /\ pend[t].op = "lock") ~> (pend[t].done \/ pend[t].op = "none" \/ holder # 0)
=============================================================================
