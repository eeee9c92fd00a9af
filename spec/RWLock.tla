------------------------------- MODULE RWLock -------------------------------
(* LevelLock and the readers-writer lock built on it.  Requests of one level *)
(* share the lock, requests of different levels exclude each other.  Readers *)
(* use level 0, a writer uses a level of his own.  Requests are served in    *)
(* order of arrival.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Threads
VARIABLES
  cur,     \* level the lock is held on
  users,   \* how many times it is held
  own,     \* [Threads -> Seq of levels] what each thread holds
  pend, aslot, queued, before
rvars == <<cur, users, own, pend, aslot, queued, before>>
Idle == [op |-> "none", lv |-> 0, done |-> FALSE, res |-> FALSE]
NoA == [st |-> "no", lv |-> 0]
Waits(t) == (pend[t].op = "lock" /\ ~pend[t].done) \/ aslot[t].st = "wait"
Level(t) == IF aslot[t].st = "wait" THEN aslot[t].lv ELSE pend[t].lv

Init == /\ cur = 0 /\ users = 0 /\ own = [t \in Threads |-> <<>>] /\ pend = [t \in Threads |-> Idle] /\ aslot = [t \in Threads |-> NoA]
        /\ queued = {} /\ before = [t \in Threads |-> {}]
Call(t, op, lv) ==
  /\ pend[t].op = "none"
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, lv |-> lv, done |-> FALSE, res |-> FALSE]]
  /\ before' = IF op \in {"lock", "async"} THEN [before EXCEPT ![t] = queued] ELSE before
  /\ UNCHANGED <<cur, users, own, aslot, queued>>
Block(t) ==
  /\ queued' = IF pend[t].op = "lock" /\ ~pend[t].done THEN queued \cup {t} ELSE queued
  /\ UNCHANGED <<cur, users, own, pend, aslot, before>>
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
Leave(t) == queued' = queued \ {t} /\ before' = [u \in Threads |-> IF u = t THEN {} ELSE before[u] \ {t}]
Stay == UNCHANGED <<queued, before>>
Fits(lv) == users = 0 \/ lv = cur
Take(lv) == users' = users + 1 /\ cur' = lv
Get(t, lv) == own' = [own EXCEPT ![t] = Append(@, lv)]
Acquire(t) == /\ pend[t].op = "lock" /\ ~pend[t].done /\ Fits(pend[t].lv) /\ before[t] = {}
              /\ Take(pend[t].lv) /\ Get(t, pend[t].lv) /\ Done(t, TRUE) /\ Leave(t) /\ UNCHANGED aslot
TryOk(t) == /\ pend[t].op = "try" /\ ~pend[t].done /\ Fits(pend[t].lv)
            /\ \A u \in queued \ {t} : ~Waits(u)
            /\ Take(pend[t].lv) /\ Get(t, pend[t].lv) /\ Done(t, TRUE) /\ Stay /\ UNCHANGED aslot
TryFail(t) == /\ pend[t].op = "try" /\ ~pend[t].done
              /\ ~Fits(pend[t].lv) \/ \E u \in Threads \ {t} : Waits(u)
              /\ Done(t, FALSE) /\ Stay /\ UNCHANGED <<cur, users, own, aslot>>
Release(t) == /\ pend[t].op = "unlock" /\ ~pend[t].done /\ own[t] # <<>>
              /\ users' = users - 1 /\ own' = [own EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ Done(t, TRUE) /\ Stay /\ UNCHANGED <<cur, aslot>>
Register(t) == /\ pend[t].op = "async" /\ ~pend[t].done
               /\ aslot' = [aslot EXCEPT ![t] = [st |-> "wait", lv |-> pend[t].lv]]
               /\ queued' = queued \cup {t} /\ Done(t, TRUE) /\ UNCHANGED <<cur, users, own, before>>
Grant(t) == /\ aslot[t].st = "wait" /\ Fits(aslot[t].lv) /\ before[t] = {}
            /\ Take(aslot[t].lv) /\ aslot' = [aslot EXCEPT ![t].st = "got"] /\ Leave(t) /\ UNCHANGED <<pend, own>>
Cancel(t) == /\ pend[t].op = "cancel" /\ ~pend[t].done
             /\ users' = IF aslot[t].st = "got" THEN users - 1 ELSE users
             /\ aslot' = [aslot EXCEPT ![t] = NoA] /\ Leave(t) /\ Done(t, TRUE) /\ UNCHANGED <<cur, own>>
Await(t) == /\ pend[t].op = "await" /\ ~pend[t].done /\ aslot[t].st = "got"
            /\ Get(t, aslot[t].lv) /\ aslot' = [aslot EXCEPT ![t] = NoA] /\ Done(t, TRUE) /\ Stay /\ UNCHANGED <<cur, users>>
\* the holder of a request looks whether it is granted; a request that can be granted is granted unless somebody is just at it
Poll(t) == /\ pend[t].op = "poll" /\ ~pend[t].done
           /\ \/ aslot[t].st = "got" /\ Done(t, TRUE)
              \/ /\ aslot[t].st = "wait" /\ Done(t, FALSE)
                 /\ (before[t] # {} \/ ~Fits(aslot[t].lv)) \/ \E u \in Threads \ {t} : pend[u].op # "none"
           /\ Stay /\ UNCHANGED <<cur, users, own, aslot>>
Lin(t) == Poll(t) \/ Acquire(t) \/ TryOk(t) \/ TryFail(t) \/ Release(t) \/ Register(t) \/ Grant(t) \/ Cancel(t) \/ Await(t)
Ret(t, op, r) == /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r
                 /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<cur, users, own, aslot, queued, before>>
\* whoever sleeps for good is held up by a holder, directly or behind an earlier request
Held(t) == Waits(t) /\ users > 0 /\ (Level(t) # cur \/ \E u \in Threads : Waits(u) /\ Level(u) # cur /\ t \notin before[u])
StuckOK == /\ \E t \in Threads : pend[t].op # "none"
           /\ \A t \in Threads : (pend[t].op # "none" => pend[t].op \in {"lock", "await"} /\ ~pend[t].done /\ Waits(t))
                               /\ (Waits(t) => Held(t))

CONSTANT MaxUsers
\* a thread may nest, but only on the level it has
May(t, lv) == Len(own[t]) < MaxUsers /\ \A i \in 1..Len(own[t]) : own[t][i] = lv
Next == \E t \in Threads :
    \/ \E lv \in {0, t}, op \in {"lock", "try"} : aslot[t].st = "no" /\ May(t, lv) /\ Call(t, op, lv)
    \/ aslot[t].st = "no" /\ \E lv \in {0, t} : May(t, lv) /\ Call(t, "async", lv)
    \/ aslot[t].st # "no" /\ \E op \in {"cancel", "await", "poll"} : Call(t, op, 0)
    \/ own[t] # <<>> /\ Call(t, "unlock", 0)
    \/ pend[t].op = "lock" /\ ~pend[t].done /\ users > 0 /\ t \notin queued /\ Block(t)
    \/ Acquire(t) \/ TryOk(t) \/ TryFail(t) \/ Release(t) \/ Register(t) \/ Grant(t) \/ Cancel(t) \/ Await(t) \/ Poll(t)
    \/ \E op \in {"poll", "lock", "try", "unlock", "async", "cancel", "await"}, r \in BOOLEAN : Ret(t, op, r)
Spec == Init /\ [][Next]_rvars
TypeOK == cur \in Threads \cup {0}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN Len(own[t]) + (IF aslot[t].st = "got" THEN 1 ELSE 0) + Sum(S \ {t})
Counted == users = Sum(Threads)
FifoInv == \A t \in Threads : \A u \in before[t] : Waits(u)
NoSelf == \A t \in Threads : t \notin before[t]
\* all holders hold the same level: many readers, or one writer and nobody else
Sharing == /\ \A t \in Threads : \A i \in 1..Len(own[t]) : own[t][i] = cur
           /\ \A t \in Threads : aslot[t].st = "got" => aslot[t].lv = cur
OneWriter == \A t, u \in Threads : (t # u /\ own[t] # <<>> /\ own[u] # <<>>) => cur = 0
=============================================================================
