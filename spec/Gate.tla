-------------------------------- MODULE Gate --------------------------------
(* Gate: lets everybody through while open; opening releases everybody who   *)
(* waits at that moment even if the gate is closed again at once.            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Threads
VARIABLES open, pend, aslot, parked, may, must
gvars == <<open, pend, aslot, parked, may, must>>
Idle == [op |-> "none", done |-> FALSE, res |-> FALSE, dl |-> 0, ph |-> 0]
WaitOps == {"wait", "waitTm"}
P(t, op) == pend[t].op = op /\ ~pend[t].done
Waits(t) == (pend[t].op \in WaitOps /\ ~pend[t].done) \/ aslot[t] = "wait"
Init == /\ open = FALSE /\ pend = [t \in Threads |-> Idle] /\ aslot = [t \in Threads |-> "no"]
        /\ parked = {} /\ may = {} /\ must = {}
Call(t, op, dl) ==
  /\ pend[t].op = "none"
  /\ pend' = [pend EXCEPT ![t] = [op |-> op, done |-> FALSE, res |-> FALSE, dl |-> dl, ph |-> 0]]
  /\ UNCHANGED <<open, aslot, parked, may, must>>
Block(t) ==
  /\ parked' = IF pend[t].op \in WaitOps /\ ~pend[t].done THEN parked \cup {t} ELSE parked
  /\ UNCHANGED <<open, pend, aslot, may, must>>
Done(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
Gone(t) == parked' = parked \ {t} /\ may' = may \ {t} /\ must' = must \ {t}
Stay == UNCHANGED <<parked, may, must>>
Through(t) == open \/ t \in may
Pass(t) == /\ pend[t].op \in WaitOps /\ ~pend[t].done /\ Through(t)
           /\ Done(t, TRUE) /\ Gone(t) /\ UNCHANGED <<open, aslot>>
GiveUp(t) == /\ P(t, "waitTm") /\ Done(t, FALSE) /\ Gone(t) /\ UNCHANGED <<open, aslot>>
\* opening takes two steps: the state is set, then the waiters are released
OpenA(t) == /\ P(t, "open") /\ pend[t].ph = 0
            /\ open' = TRUE /\ pend' = [pend EXCEPT ![t].ph = 1] /\ UNCHANGED <<aslot, parked, may, must>>
OpenB(t) == /\ P(t, "open") /\ pend[t].ph = 1
            /\ may' = may \cup {u \in Threads : Waits(u)} /\ must' = must \cup parked
            /\ Done(t, TRUE) /\ UNCHANGED <<open, aslot, parked>>
Close(t) == P(t, "close") /\ open' = FALSE /\ Done(t, TRUE) /\ UNCHANGED aslot /\ Stay
Look(t) == P(t, "isopen") /\ Done(t, open) /\ UNCHANGED <<open, aslot>> /\ Stay
Register(t) == /\ P(t, "async") /\ aslot' = [aslot EXCEPT ![t] = "wait"]
               /\ parked' = parked \cup {t} /\ Done(t, TRUE) /\ UNCHANGED <<open, may, must>>
Signal(t) == /\ aslot[t] = "wait" /\ Through(t)
             /\ aslot' = [aslot EXCEPT ![t] = "got"] /\ Gone(t) /\ UNCHANGED <<open, pend>>
Cancel(t) == P(t, "cancel") /\ aslot' = [aslot EXCEPT ![t] = "no"] /\ Gone(t) /\ Done(t, TRUE) /\ UNCHANGED open
Await(t) == P(t, "await") /\ aslot[t] = "got" /\ aslot' = [aslot EXCEPT ![t] = "no"] /\ Done(t, TRUE) /\ UNCHANGED open /\ Stay
Lin(t) == Pass(t) \/ GiveUp(t) \/ OpenA(t) \/ OpenB(t) \/ Close(t) \/ Look(t) \/ Register(t) \/ Signal(t) \/ Cancel(t) \/ Await(t)
Ret(t, op, r, now) ==
  /\ pend[t].op = op /\ pend[t].done /\ pend[t].res = r
  /\ (op = "waitTm" /\ ~r) => now >= pend[t].dl
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<open, aslot, parked, may, must>>
StuckOK == /\ ~open /\ must = {}
           /\ \E t \in Threads : pend[t].op # "none"
           /\ \A t \in Threads : pend[t].op # "none" => (pend[t].op = "wait" /\ ~pend[t].done) \/ (P(t, "await") /\ aslot[t] = "wait")
Next == \E t \in Threads :
   \/ \E op \in WaitOps \cup {"open", "close", "isopen"} : aslot[t] = "no" /\ Call(t, op, 0)
   \/ aslot[t] = "no" /\ Call(t, "async", 0)
   \/ aslot[t] # "no" /\ \E op \in {"cancel", "await"} : Call(t, op, 0)
   \/ pend[t].op \in WaitOps /\ ~pend[t].done /\ ~open /\ t \notin parked /\ Block(t)
   \/ Pass(t) \/ GiveUp(t) \/ OpenA(t) \/ OpenB(t) \/ Close(t) \/ Look(t) \/ Register(t) \/ Signal(t) \/ Cancel(t) \/ Await(t)
   \/ \E op \in WaitOps \cup {"open", "close", "isopen", "async", "cancel", "await"}, r \in BOOLEAN : Ret(t, op, r, 0)
Spec == Init /\ [][Next]_gvars
TypeOK == must \subseteq may /\ may \subseteq Threads
OnlyWaiters == \A t \in may : Waits(t)
=============================================================================
