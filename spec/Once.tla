-------------------------------- MODULE Once --------------------------------
(* Singletons: the instance is built by one of the threads which ask for it, *)
(* after a failure by another attempt; nobody gets it half built.            *)
EXTENDS Naturals
CONSTANTS Threads, Objs
VARIABLES st, pend
ovars == <<st, pend>>
Idle == [o |-> 0, failed |-> FALSE]
Init == st = [o \in Objs |-> "none"] /\ pend = [t \in Threads |-> Idle]
Call(t, o) == pend[t].o = 0 /\ pend' = [pend EXCEPT ![t] = [o |-> o, failed |-> FALSE]] /\ UNCHANGED st
Building(t) == [by |-> t]
Ctor(t, o) == /\ pend[t].o = o /\ st[o] = "none" /\ ~pend[t].failed /\ st' = [st EXCEPT ![o] = "building"] /\ UNCHANGED pend
\* done: silent end of the constructor
Built(t) == /\ pend[t].o # 0 /\ st[pend[t].o] = "building" /\ st' = [st EXCEPT ![pend[t].o] = "ready"] /\ UNCHANGED pend
Failed(t, o) == /\ pend[t].o = o /\ st[o] = "building" /\ st' = [st EXCEPT ![o] = "none"] /\ pend' = [pend EXCEPT ![t].failed = TRUE]
Ret(t, r) == /\ pend[t].o # 0 /\ (IF r THEN st[pend[t].o] = "ready" /\ ~pend[t].failed ELSE pend[t].failed)
             /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED st
Dtor(o) == st[o] = "ready" /\ (\A t \in Threads : pend[t].o = 0) /\ st' = [st EXCEPT ![o] = "dead"] /\ UNCHANGED pend
Next == (\E o \in Objs : Dtor(o)) \/ \E t \in Threads : (\E o \in Objs : (st[o] # "dead" /\ Call(t, o)) \/ Ctor(t, o) \/ Failed(t, o)) \/ Built(t) \/ \E r \in BOOLEAN : Ret(t, r)
Spec == Init /\ [][Next]_ovars
OnceOnly == [][\A o \in Objs : st[o] = "ready" => st'[o] \in {"ready", "dead"}]_ovars
=============================================================================
