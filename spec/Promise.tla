------------------------------- MODULE Promise -------------------------------
(* Future/Promise: one result, decided by the first resolve; every observer  *)
(* is told exactly once, either the result or the reason of a cancellation   *)
(* which hit it while it was registered; waiting ends with the same.         *)
(* Results are numbers: positive = value, negative = exception code.         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Obs
Canceled == -1000
VARIABLES
  res,      \* 0 = not resolved
  settled,  \* time when the resolving call has returned (-1 = not yet)
  st,       \* [Obs -> [k: {"no","reg","taken","due","done"}, v, by]]
  bef,      \* [Obs -> SUBSET Obs] registered before
  pend,     \* operations in progress
  parked,   \* waiters known to sleep
  mayc,     \* [Threads -> set of cancel codes which hit this waiter]
  nprom     \* live promises
pvars == <<res, settled, st, bef, pend, parked, mayc, nprom>>
Idle == [op |-> "none", v |-> 0, o |-> 0, done |-> FALSE, res |-> 0, win |-> FALSE, dl |-> 0, at |-> 0, must |-> FALSE, r0 |-> 0]
NoO == [k |-> "no", v |-> 0, by |-> 0]
WaitOps == {"wait", "waitTm"}
P(t, op) == pend[t].op = op /\ ~pend[t].done
Init == /\ res = 0 /\ settled = -1 /\ st = [o \in Obs |-> NoO] /\ bef = [o \in Obs |-> {}]
        /\ pend = [t \in Threads |-> Idle] /\ parked = {} /\ mayc = [t \in Threads |-> {}] /\ nprom \in 0..2
Adding(o) == \E t \in Threads : pend[t].op = "add" /\ pend[t].o = o
Call(t, op, v, o, dl, at) ==
  /\ pend[t].op = "none"
  /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op, !.v = v, !.o = o, !.dl = dl, !.at = at, !.r0 = res]]
  /\ bef' = IF op = "add" THEN [bef EXCEPT ![o] = {u \in Obs \ {o} : st[u].k = "reg" /\ ~Adding(u)}] ELSE bef
  /\ mayc' = [mayc EXCEPT ![t] = {}]
  /\ UNCHANGED <<res, settled, st, parked, nprom>>
\* certainly asleep in the wait: nobody else could hold it anywhere before it
Block(t) == /\ parked' = IF /\ pend[t].op \in WaitOps /\ ~pend[t].done
                            /\ \A u \in Threads \ {t} : pend[u].op = "none" \/ u \in parked THEN parked \cup {t} ELSE parked
            /\ UNCHANGED <<res, settled, st, bef, pend, mayc, nprom>>
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
Rest == UNCHANGED <<bef, parked, nprom>>
Resolve(t) ==
  /\ P(t, "resolve")
  /\ IF res = 0 THEN /\ res' = pend[t].v
                     /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].win = TRUE]
     ELSE UNCHANGED res /\ Done(t, 0)
  /\ UNCHANGED <<settled, st, mayc>> /\ Rest
\* a cancellation takes all who are registered now
Hit(t, code) ==
  /\ st' = [o \in Obs |-> IF st[o].k = "reg" THEN [k |-> "due", v |-> code, by |-> t] ELSE st[o]]
  /\ mayc' = [u \in Threads |-> IF pend[u].op \in WaitOps /\ ~pend[u].done THEN mayc[u] \cup {code} ELSE mayc[u]]
State == IF res = 0 THEN {0} ELSE {1, 2}
Cancel(t) == /\ P(t, "cancel") /\ Hit(t, pend[t].v)
             /\ pend' = [u \in Threads |-> IF u = t THEN [pend[t] EXCEPT !.done = TRUE]
                                           ELSE IF u \in parked /\ pend[u].op \in WaitOps /\ ~pend[u].done THEN [pend[u] EXCEPT !.must = TRUE] ELSE pend[u]]
             /\ UNCHANGED <<res, settled>> /\ Rest
Drop(t) == /\ P(t, "drop") /\ nprom' = nprom - 1
           /\ IF nprom = 1 THEN Hit(t, Canceled) ELSE UNCHANGED <<st, mayc>>
           /\ pend' = [u \in Threads |-> IF u = t THEN [pend[t] EXCEPT !.done = TRUE]
                                           ELSE IF nprom = 1 /\ u \in parked /\ pend[u].op \in WaitOps /\ ~pend[u].done THEN [pend[u] EXCEPT !.must = TRUE] ELSE pend[u]]
           /\ UNCHANGED <<res, settled, bef, parked>>
Destroy(t) == /\ P(t, "destroy") /\ Hit(t, Canceled) /\ Done(t, 0) /\ UNCHANGED <<res, settled>> /\ Rest
Add(t) == /\ P(t, "add") /\ st[pend[t].o].k \in {"no", "done"}
          /\ st' = [st EXCEPT ![pend[t].o] = [k |-> "reg", v |-> 0, by |-> 0]]
          /\ Done(t, 0) /\ UNCHANGED <<res, settled, mayc>> /\ Rest
Remove(t) == /\ P(t, "remove")
             /\ LET o == pend[t].o IN
                IF st[o].k = "reg" THEN st' = [st EXCEPT ![o] = NoO] /\ Done(t, 1) /\ bef' = [u \in Obs |-> bef[u] \ {o}]
                ELSE UNCHANGED <<st, bef>> /\ Done(t, 0)
             /\ UNCHANGED <<res, settled, mayc, parked, nprom>>
\* an observer is told, in the context of a call of thread t
\* the resolving thread takes the observers one by one, in the order of registration;
\* from that moment removing doesn't help
Take(t, o) ==
  /\ pend[t].op = "resolve" /\ pend[t].win /\ st[o].k = "reg"
  /\ \A u \in Obs : (u \in bef[o] => st[u].k # "reg") /\ ~(st[u].k = "taken" /\ st[u].by = t /\ ~Adding(u))
  /\ st' = [st EXCEPT ![o] = [k |-> "taken", v |-> res, by |-> t]]
  /\ UNCHANGED <<res, settled, bef, pend, parked, mayc, nprom>>
Told(t, o, v) ==
  /\ \/ st[o].k = "taken" /\ v = res /\ (st[o].by = t \/ (pend[t].op = "add" /\ pend[t].o = o))
     \/ st[o].k = "reg" /\ res # 0 /\ v = res /\ pend[t].op = "add" /\ pend[t].o = o /\ pend[t].done
     \/ /\ st[o].k = "due" /\ v = st[o].v
        /\ \/ st[o].by = t /\ pend[t].op \in {"cancel", "drop", "destroy"}
           \* the head of the chain was hit, its tail is still being connected
           \/ pend[t].op = "add" /\ pend[t].o = o
  /\ st' = [st EXCEPT ![o] = [k |-> "done", v |-> v, by |-> t]]
  /\ bef' = [u \in Obs |-> bef[u] \ {o}]
  /\ UNCHANGED <<res, settled, pend, parked, mayc, nprom>>
Awake(t) == parked' = parked \ {t}
WaitRes(t) == /\ pend[t].op \in WaitOps /\ ~pend[t].done /\ res # 0
              /\ Done(t, res) /\ Awake(t) /\ UNCHANGED <<res, settled, st, bef, mayc, nprom>>
WaitHit(t) == /\ pend[t].op \in WaitOps /\ ~pend[t].done
              /\ \E c \in mayc[t] : Done(t, c)
              /\ Awake(t) /\ UNCHANGED <<res, settled, st, bef, mayc, nprom>>
GiveUp(t) == /\ P(t, "waitTm") /\ pend[t].r0 = 0 /\ ~pend[t].must
             /\ Done(t, 0) /\ Awake(t) /\ UNCHANGED <<res, settled, st, bef, mayc, nprom>>
TryGet(t) == P(t, "get") /\ Done(t, res) /\ UNCHANGED <<res, settled, st, mayc>> /\ Rest
GetState(t) == P(t, "state") /\ (\E s \in State : Done(t, s)) /\ UNCHANGED <<res, settled, st, mayc>> /\ Rest
Lin(t) == Resolve(t) \/ Cancel(t) \/ Drop(t) \/ Destroy(t) \/ Add(t) \/ Remove(t) \/ WaitRes(t) \/ WaitHit(t) \/ GiveUp(t) \/ TryGet(t) \/ GetState(t)
Ret(t, op, r, now) ==
  /\ pend[t].op = op /\ pend[t].done
  /\ op \notin {"cancel"} => pend[t].res = r
  /\ op = "cancel" => (r = 0 => pend[t].r0 = 0) /\ (r # 0 => res # 0)
  /\ (op = "resolve" /\ pend[t].win) => \A o \in Obs : (st[o].k = "reg" => Adding(o)) /\ ~(st[o].k = "taken" /\ st[o].by = t /\ ~Adding(o))
  \* "completely resolved" is said only when nobody is left to be told
  /\ (op = "state" /\ r = 2) => \A o \in Obs : st[o].k = "reg" => Adding(o)
  /\ op = "add" => (settled # -1 /\ res # 0 /\ pend[t].r0 # 0 => st[pend[t].o].k # "reg")
  /\ op \in {"cancel", "drop", "destroy"} => \A o \in Obs : ~(st[o].k = "due" /\ st[o].by = t /\ ~Adding(o))
  /\ (op = "waitTm" /\ r = 0) => now >= pend[t].dl /\ (settled = -1 \/ settled >= pend[t].dl)
  /\ settled' = IF op = "resolve" /\ pend[t].win THEN now ELSE settled
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<res, st, bef, parked, mayc, nprom>>
StuckOK == /\ res = 0 /\ \E t \in Threads : pend[t].op # "none"
           /\ \A t \in Threads : pend[t].op # "none" => P(t, "wait") /\ ~pend[t].must

CONSTANTS Vals
OwnerOf(o) == CHOOSE t \in Threads : TRUE
Next == \E t \in Threads :
   \/ \E v \in Vals : Call(t, "resolve", v, 0, 0, 0)
   \/ Call(t, "cancel", Canceled, 0, 0, 0)
   \/ nprom > 0 /\ (\A u \in Threads : pend[u].op # "drop") /\ Call(t, "drop", 0, 0, 0, 0)
   \/ \E o \in Obs : st[o].k = "no" /\ ~Adding(o) /\ Call(t, "add", 0, o, 0, 0)
   \/ \E o \in Obs : st[o].k # "no" /\ Call(t, "remove", 0, o, 0, 0)
   \/ \E op \in WaitOps \cup {"get"} : Call(t, op, 0, 0, 0, 0)
   \/ pend[t].op \in WaitOps /\ ~pend[t].done /\ res = 0 /\ t \notin parked /\ Block(t)
   \/ Resolve(t) \/ Cancel(t) \/ Drop(t) \/ Add(t) \/ Remove(t) \/ WaitRes(t) \/ WaitHit(t) \/ GiveUp(t) \/ TryGet(t)
   \/ \E o \in Obs : Take(t, o)
   \/ \E o \in Obs, v \in Vals \cup {Canceled} : Told(t, o, v)
   \/ \E op \in {"resolve", "cancel", "drop", "add", "remove", "wait", "waitTm", "get"}, r \in Vals \cup {Canceled, 0, 1} : Ret(t, op, r, 0)
Spec == Init /\ nprom = 2 /\ [][Next]_pvars
OneResult == res # 0 => res \in Vals
\* whoever was told a value was told the result
ToldRight == \A o \in Obs : (st[o].k = "done") => st[o].v \in {res, Canceled}
WaitRight == \A t \in Threads : (pend[t].op \in WaitOps \cup {"get"} /\ pend[t].done) => pend[t].res \in {0, res, Canceled}
Stable == [][res # 0 => res' = res]_pvars
=============================================================================
