------------------------------ MODULE ParExec ------------------------------
(* A pool of threads which runs actions: every accepted action is run exactly*)
(* once, a refused one never, and no more at once than the pool is allowed.  *)
EXTENDS Integers, FiniteSets
CONSTANTS Actors, Acts, MaxMax
VARIABLES
  ac,    \* none, offered, taken, run, done, refused
  mx,    \* allowed count of threads
  hi,    \* threads which can exist now
  sent,  \* actions whose execute reported success
  pend,
  dead
pvars == <<ac, mx, hi, sent, pend, dead>>
Idle == [op |-> "none", a |-> 0, dl |-> 0, done |-> FALSE, res |-> 0]
Init0 == ac = [a \in Acts |-> "none"] /\ sent = {} /\ pend = [t \in Actors |-> Idle] /\ dead = FALSE
Busy == {a \in Acts : ac[a] \in {"taken", "run"}}
Larger(x, y) == IF x > y THEN x ELSE y
Call(t, op, a, dl) ==
  /\ pend[t].op = "none" /\ ~dead
  \* one thread controls the executor
  /\ op \in {"execute", "stop", "destroy", "spawn", "finish"} => \A u \in Actors : pend[u].op \notin {"execute", "stop", "destroy", "spawn", "finish"}
  /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op, !.a = a, !.dl = dl]]
  /\ IF op = "execute" THEN ac[a] = "none" /\ ac' = [ac EXCEPT ![a] = "offered"] ELSE UNCHANGED ac
  /\ UNCHANGED <<mx, hi, sent, dead>>
\* a worker picks the action up
Take(t) == /\ pend[t].op = "execute" /\ ac[pend[t].a] = "offered" /\ Cardinality(Busy) < Larger(hi, mx)
           /\ ac' = [ac EXCEPT ![pend[t].a] = "taken"] /\ UNCHANGED <<mx, hi, sent, pend, dead>>
Refuse(t) == /\ pend[t].op = "execute" /\ ac[pend[t].a] = "offered" /\ ac' = [ac EXCEPT ![pend[t].a] = "refused"] /\ UNCHANGED <<mx, hi, sent, pend, dead>>
Begin(a) == ac[a] = "taken" /\ ac' = [ac EXCEPT ![a] = "run"] /\ UNCHANGED <<mx, hi, sent, pend, dead>>
End(a) == ac[a] = "run" /\ ac' = [ac EXCEPT ![a] = "done"] /\ UNCHANGED <<mx, hi, sent, pend, dead>>
\* threads above a lowered limit go away, but not at once
SetMax(t) == /\ pend[t].op = "setmax" /\ ~pend[t].done /\ mx' = pend[t].a /\ hi' = Larger(Larger(hi, mx), pend[t].a)
             /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED <<ac, sent, dead>>
Stopped(t) == /\ pend[t].op \in {"stop", "destroy"} /\ ~pend[t].done /\ Busy = {} /\ hi' = mx /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = 1]
              /\ UNCHANGED <<ac, mx, sent, dead>>
Lin(t) == Take(t) \/ Refuse(t) \/ SetMax(t) \/ Stopped(t)
Ret(t, op, r, now) ==
  /\ pend[t].op = op
  /\ \/ op = "execute" /\ (IF r = 1 THEN ac[pend[t].a] \in {"taken", "run", "done"} ELSE ac[pend[t].a] = "refused" /\ now >= pend[t].dl)
     \/ op \in {"stop", "destroy"} /\ (IF r = 1 THEN pend[t].done ELSE op = "stop" /\ ~pend[t].done /\ pend[t].dl > 0 /\ now >= pend[t].dl)
     \/ op = "setmax" /\ pend[t].done
     \/ op \in {"count", "spawn"} /\ r >= 0 /\ r <= Larger(hi, mx) + 1
     \/ op = "finish"
  /\ sent' = IF op = "execute" /\ r = 1 THEN sent \cup {pend[t].a} ELSE sent
  /\ dead' = (dead \/ op = "destroy")
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<ac, mx, hi>>
\* nothing can move before some time passes: c threads, i of them idle
Quiet(c, i, keeps) ==
  /\ c <= mx /\ i = c - Cardinality({a \in Acts : ac[a] = "run"})
  /\ \A a \in Acts : ac[a] # "taken"
  /\ ~keeps => i = 0
  /\ (\E t \in Actors : pend[t].op = "execute" /\ ac[pend[t].a] = "offered") => c = mx /\ i = 0
  /\ hi' = mx /\ UNCHANGED <<ac, mx, sent, pend, dead>>
\* -- closed model
Next == \/ \E t \in Actors : \/ \E a \in Acts : Call(t, "execute", a, 0)
                             \/ \E k \in 1..MaxMax : Call(t, "setmax", k, 0)
                             \/ Call(t, "stop", 0, 1) \/ Call(t, "destroy", 0, 0) \/ Call(t, "finish", 0, 0) \/ Call(t, "spawn", 0, 0) \/ Call(t, "count", 0, 0)
                             \/ Take(t) \/ Refuse(t) \/ SetMax(t) \/ Stopped(t)
                             \/ \E op \in {"execute", "stop", "destroy", "setmax", "count", "spawn", "finish"}, r \in {0, 1} : Ret(t, op, r, 1)
        \/ \E a \in Acts : Begin(a) \/ End(a)
        \/ \E c, i \in 0..MaxMax, k \in BOOLEAN : Quiet(c, i, k)
Spec == Init0 /\ mx \in 1..MaxMax /\ hi = mx /\ [][Next]_pvars
Limit == Cardinality(Busy) <= Larger(hi, mx)
Accepted == \A a \in sent : ac[a] \in {"taken", "run", "done"}
StopMeansIdle == \A t \in Actors : (pend[t].op = "destroy" /\ pend[t].done) => Busy = {}
DeadDone == dead => \A a \in sent : ac[a] = "done"
Once == [][\A a \in Acts : ac[a] \in {"done", "refused"} => ac'[a] = ac[a]]_pvars
=============================================================================
