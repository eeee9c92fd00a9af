----------------------------- MODULE QueueExec -----------------------------
(* Actions queued by some threads are run by the threads which serve.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Acts
VARIABLES
  q,     \* queued actions
  srv,   \* what a serving thread does: out, in, take, run, fail
  cur,   \* action of the serving thread
  ac,    \* none, queued, taken, run, done, lost
  fin,   \* finished until a reset
  pend, dead
qvars == <<q, srv, cur, ac, fin, pend, dead>>
Idle == [op |-> "none", a |-> 0, dl |-> 0, stg |-> 0, res |-> 0]
Init == q = <<>> /\ srv = [t \in Threads |-> "out"] /\ cur = [t \in Threads |-> 0] /\ ac = [a \in Acts |-> "none"] /\ fin = FALSE /\ pend = [t \in Threads |-> Idle] /\ dead = FALSE
Call(t, op, a, dl) == /\ pend[t].op = "none" /\ ~dead /\ \A u \in Threads : pend[u].op # "destroy"
                      /\ op = "execute" => ac[a] = "none" /\ \A u \in Threads : pend[u].a # a
                      /\ op = "destroy" => \A u \in Threads \ {t} : pend[u].op = "none" \/ (pend[u].op = "serve" /\ pend[u].stg = 1)
                      /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op, !.a = a, !.dl = dl]] /\ UNCHANGED <<q, srv, cur, ac, fin, dead>>
Stg(t, k, r) == pend' = [pend EXCEPT ![t].stg = k, ![t].res = r]
At(t, op, k) == pend[t].op = op /\ pend[t].stg = k
Put(a) == IF fin THEN ac' = [ac EXCEPT ![a] = "lost"] /\ UNCHANGED q ELSE q' = Append(q, a) /\ ac' = [ac EXCEPT ![a] = "queued"]
Execute(t) == At(t, "execute", 0) /\ Put(pend[t].a) /\ Stg(t, 9, 1) /\ UNCHANGED <<srv, cur, fin, dead>>
Enter(t) == At(t, "serve", 0) /\ srv[t] = "out" /\ srv' = [srv EXCEPT ![t] = "in"] /\ Stg(t, 1, 0) /\ UNCHANGED <<q, cur, ac, fin, dead>>
Take(t) == /\ srv[t] = "in" /\ ~fin /\ q # <<>> /\ cur' = [cur EXCEPT ![t] = Head(q)] /\ ac' = [ac EXCEPT ![Head(q)] = "taken"] /\ q' = Tail(q)
           /\ srv' = [srv EXCEPT ![t] = "take"] /\ UNCHANGED <<fin, pend, dead>>
Begin(t, a) == srv[t] = "take" /\ cur[t] = a /\ srv' = [srv EXCEPT ![t] = "run"] /\ ac' = [ac EXCEPT ![a] = "run"] /\ UNCHANGED <<q, cur, fin, pend, dead>>
\* an exception of an action leaves the serving function
End(t, a, exc) == srv[t] = "run" /\ cur[t] = a /\ srv' = [srv EXCEPT ![t] = IF exc THEN "fail" ELSE "in"] /\ ac' = [ac EXCEPT ![a] = "done"] /\ UNCHANGED <<q, cur, fin, pend, dead>>
Leave(t) == /\ At(t, "serve", 1) /\ (srv[t] = "fail" \/ (srv[t] = "in" /\ fin)) /\ Stg(t, 9, IF srv[t] = "fail" THEN 0 ELSE 1)
            /\ srv' = [srv EXCEPT ![t] = "out"] /\ UNCHANGED <<q, cur, ac, fin, dead>>
Finish(t) == /\ pend[t].op \in {"finish", "stop", "destroy"} /\ pend[t].stg = 0 /\ fin' = TRUE /\ q' = <<>>
             /\ ac' = [a \in Acts |-> IF ac[a] = "queued" THEN "lost" ELSE ac[a]] /\ Stg(t, IF pend[t].op = "finish" THEN 9 ELSE 1, 0) /\ UNCHANGED <<srv, cur, dead>>
Gone(t) == /\ pend[t].op \in {"stop", "destroy"} /\ pend[t].stg = 1 /\ (\A u \in Threads : srv[u] = "out") /\ Stg(t, 9, 1) /\ UNCHANGED <<q, srv, cur, ac, fin, dead>>
Reset(t) == At(t, "reset", 0) /\ fin' = FALSE /\ Stg(t, 9, 0) /\ UNCHANGED <<q, srv, cur, ac, dead>>
InAct == {t \in Threads : srv[t] \in {"take", "run"}}
\* the answer may come a moment before the action begins or after it ends
Running(t) == /\ At(t, "running", 0) /\ Stg(t, 9, IF InAct # {} THEN 1 ELSE 0) /\ UNCHANGED <<q, srv, cur, ac, fin, dead>>
RunningLate(t) == /\ At(t, "running", 0) /\ (\E u \in Threads : srv[u] \in {"in", "fail"} /\ cur[u] # 0) /\ Stg(t, 9, 1) /\ UNCHANGED <<q, srv, cur, ac, fin, dead>>
Lin(t) == Execute(t) \/ Enter(t) \/ Take(t) \/ Leave(t) \/ Finish(t) \/ Gone(t) \/ Reset(t) \/ Running(t) \/ RunningLate(t)
Ret(t, op, r, now) == /\ pend[t].op = op /\ (IF op = "stop" /\ r = 0 THEN pend[t].stg = 1 /\ pend[t].dl > 0 /\ now >= pend[t].dl ELSE pend[t].stg = 9 /\ r = pend[t].res)
                      /\ pend' = [pend EXCEPT ![t] = Idle] /\ dead' = (dead \/ op = "destroy") /\ UNCHANGED <<q, srv, cur, ac, fin>>
\* an action puts another one
Nested(a) == ac[a] = "none" /\ Put(a) /\ UNCHANGED <<srv, cur, fin, pend, dead>>
\* nothing can move before some time passes: whoever serves has nothing to do
Calm == /\ \A t \in Threads : srv[t] \in {"out", "in", "run"} /\ (srv[t] = "in" => q = <<>> /\ ~fin) /\ pend[t].stg # 9
        /\ \A t \in Threads : pend[t].op # "none" => \/ At(t, "serve", 1) \/ (pend[t].op \in {"stop", "destroy"} /\ pend[t].stg = 1 /\ \E u \in Threads : srv[u] # "out")
Quiet(r) == Calm /\ (r = 1) = (\E t \in Threads : srv[t] = "run") /\ UNCHANGED qvars
StuckOK == Calm /\ \A t \in Threads : srv[t] # "run" /\ pend[t].op \in {"none", "serve"}
Next == \/ \E t \in Threads : \/ \E a \in Acts : Call(t, "execute", a, 0) \/ Begin(t, a) \/ End(t, a, TRUE) \/ End(t, a, FALSE)
                              \/ \E op \in {"serve", "finish", "stop", "destroy", "reset", "running"} : Call(t, op, 0, 1)
                              \/ Execute(t) \/ Enter(t) \/ Take(t) \/ Leave(t) \/ Finish(t) \/ Gone(t) \/ Reset(t) \/ Running(t) \/ RunningLate(t)
                              \/ \E op \in {"execute", "serve", "finish", "stop", "destroy", "reset", "running"}, r \in {0, 1} : Ret(t, op, r, 1)
        \/ \E r \in {0, 1} : Quiet(r)
Spec == Init /\ [][Next]_qvars
Queued == \A a \in Acts : (ac[a] = "queued") = (\E i \in 1..Len(q) : q[i] = a)
Empty == fin => q = <<>>
OneEach == \A t, u \in InAct : t # u => cur[t] # cur[u]
DeadOut == dead => \A t \in Threads : srv[t] = "out"
Once == [][\A a \in Acts : ac[a] \in {"done", "lost"} => ac'[a] = ac[a]]_qvars
=============================================================================
