------------------------------- MODULE Thread -------------------------------
(* Life of threads: start, run, end (by return or exception), join, finish   *)
(* request, sleep and wake-up, thread variables and hooks.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Actors,  \* threads which operate thread objects
          Objs,    \* thread objects
          Reasons, \* reasons of wake-ups (model only)
          MaxTls
VARIABLES
  ph,    \* idle, claimed, starting, init, bad, ready, run, exit, exc
  fin,   \* finish requested
  wk,    \* a wake-up is pending
  rs,    \* reasons which may be reported
  hk,    \* hooks called in the current phase
  tls,   \* thread variables alive
  bop,   \* operation of the body in progress
  pend,  \* operation of an actor in progress
  gone,  \* destroyed objects
  nh, badh
tvars2 == <<ph, fin, wk, rs, hk, tls, bop, pend, gone, nh, badh>>
Idle == [op |-> "none", x |-> 0, v |-> 0, stg |-> 0, res |-> 0, fail |-> FALSE]
BIdle == [op |-> "none", dl |-> 0, done |-> FALSE, res |-> 0, v |-> 0]
Init0 == /\ ph = [x \in Objs |-> "idle"] /\ fin = [x \in Objs |-> FALSE] /\ wk = [x \in Objs |-> FALSE] /\ rs = [x \in Objs |-> {}]
         /\ hk = [x \in Objs |-> 0] /\ tls = [x \in Objs |-> 0] /\ bop = [x \in Objs |-> BIdle] /\ pend = [t \in Actors |-> Idle] /\ gone = {}
Init == Init0 /\ nh = 0 /\ badh = 0
\* somebody joining can pass
Open(x) == ph[x] \in {"idle", "claimed"}
Call(t, op, x, v, fail) ==
  /\ pend[t].op = "none" /\ x \notin gone
  \* the user's part of the contract: nobody uses an object which is being destroyed
  /\ \A u \in Actors : pend[u].op = "destroy" => pend[u].x # x
  /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op, !.x = x, !.v = v, !.fail = fail]]
  /\ rs' = IF op = "wake" THEN [rs EXCEPT ![x] = @ \cup {v}] ELSE IF op \in {"finish", "stop", "destroy"} THEN [rs EXCEPT ![x] = @ \cup {-1}] ELSE rs
  /\ UNCHANGED <<ph, fin, wk, hk, tls, bop, gone, nh, badh>>
Stg(t, k, r) == pend' = [pend EXCEPT ![t].stg = k, ![t].res = r]
At(t, op, k) == pend[t].op = op /\ pend[t].stg = k
\* -- start
Start(t) == /\ At(t, "start", 0)
            /\ LET x == pend[t].x IN
               IF ph[x] = "idle" THEN /\ ph' = [ph EXCEPT ![x] = "claimed"] /\ Stg(t, 5, 0)
               ELSE /\ Stg(t, 9, -1) /\ UNCHANGED ph
            /\ UNCHANGED <<fin, wk, rs, hk, tls, bop, gone, nh, badh>>
\* nobody else can start the thread any more, but it is not visible as running yet
Start2(t) == /\ At(t, "start", 5) /\ ph' = [ph EXCEPT ![pend[t].x] = "starting"] /\ Stg(t, 1, 0) /\ UNCHANGED <<fin, wk, rs, hk, tls, bop, gone, nh, badh>>
StartFail(t) == /\ At(t, "start", 1) /\ pend[t].fail /\ ph' = [ph EXCEPT ![pend[t].x] = "idle"] /\ Stg(t, 9, -2)
                /\ UNCHANGED <<fin, wk, rs, hk, tls, bop, gone, nh, badh>>
Boot(t) == /\ At(t, "start", 1) /\ ~pend[t].fail /\ LET x == pend[t].x IN ph[x] = "starting" /\ ph' = [ph EXCEPT ![x] = "init"] /\ fin' = [fin EXCEPT ![x] = FALSE] /\ hk' = [hk EXCEPT ![x] = 0]
           /\ Stg(t, 2, 0) /\ UNCHANGED <<wk, rs, tls, bop, gone, nh, badh>>
Ready(t) == /\ At(t, "start", 2) /\ LET x == pend[t].x IN
               \/ ph[x] = "init" /\ hk[x] = nh /\ ph' = [ph EXCEPT ![x] = "ready"] /\ UNCHANGED hk
               \/ ph[x] = "bad" /\ UNCHANGED <<ph, hk>>
            /\ Stg(t, 9, 0) /\ UNCHANGED <<fin, wk, rs, tls, bop, gone, nh, badh>>
\* hooks: initialisation in order of installation, the rest in the reverse order
Hook(x, k, h) ==
  /\ \/ k = "init" /\ ph[x] = "init" /\ h = hk[x] + 1 /\ h <= nh
        /\ IF h = badh /\ x = 0 THEN ph' = [ph EXCEPT ![x] = "bad"] /\ hk' = [hk EXCEPT ![x] = h - 1] ELSE hk' = [hk EXCEPT ![x] = h] /\ UNCHANGED ph
     \/ k = "exit" /\ ph[x] = "exit" /\ h = hk[x] /\ hk' = [hk EXCEPT ![x] = h - 1] /\ UNCHANGED ph
     \/ k = "exc" /\ ph[x] \in {"exc", "bad"} /\ h = hk[x] /\ hk' = [hk EXCEPT ![x] = h - 1] /\ UNCHANGED ph
  /\ UNCHANGED <<fin, wk, rs, tls, bop, pend, gone, nh, badh>>
\* -- body
Begin(x) == /\ ph[x] = "ready" /\ ph' = [ph EXCEPT ![x] = "run"] /\ UNCHANGED <<fin, wk, rs, hk, tls, bop, pend, gone, nh, badh>>
End(x, exc) == /\ ph[x] = "run" /\ bop[x].op = "none" /\ ph' = [ph EXCEPT ![x] = IF exc THEN "exc" ELSE "exit"]
               /\ UNCHANGED <<fin, wk, rs, hk, tls, bop, pend, gone, nh, badh>>
TlsDel(x) == /\ ph[x] \in {"run", "exit", "exc"} /\ (ph[x] = "run" => bop[x].op = "tls") /\ (ph[x] # "run" => hk[x] = 0) /\ tls[x] > 0
             /\ tls' = [tls EXCEPT ![x] = @ - 1] /\ UNCHANGED <<ph, fin, wk, rs, hk, bop, pend, gone, nh, badh>>
\* the thread is over: whoever joins it may go on
Over(x) == /\ ph[x] \in {"exit", "exc", "bad"} /\ hk[x] = 0 /\ tls[x] = 0
           /\ ph[x] = "bad" => \A t \in Actors : ~(pend[t].op = "start" /\ pend[t].x = x /\ pend[t].stg \in {1, 2})
           /\ ph' = [ph EXCEPT ![x] = "idle"]
           \* a wake-up left over by the library itself may be seen by the next run
           /\ \/ UNCHANGED <<wk, rs>>
              \/ wk' = [wk EXCEPT ![x] = TRUE] /\ rs' = [rs EXCEPT ![x] = @ \cup {0}]
           /\ UNCHANGED <<fin, hk, tls, bop, pend, gone, nh, badh>>
BCall(x, op, dl) == /\ ph[x] = "run" /\ bop[x].op = "none" /\ bop' = [bop EXCEPT ![x] = [BIdle EXCEPT !.op = op, !.dl = dl]]
                    /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, pend, gone, nh, badh>>
Woken(x) == /\ bop[x].op \in {"sleep", "sleepTm"} /\ ~bop[x].done /\ wk[x] /\ wk' = [wk EXCEPT ![x] = FALSE]
            /\ bop' = [bop EXCEPT ![x].done = TRUE, ![x].res = 1] /\ UNCHANGED <<ph, fin, rs, hk, tls, pend, gone, nh, badh>>
TimedOut(x) == /\ bop[x].op = "sleepTm" /\ ~bop[x].done /\ ~wk[x]
               /\ bop' = [bop EXCEPT ![x].done = TRUE, ![x].res = 0] /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, pend, gone, nh, badh>>
CanFin(x) == /\ bop[x].op = "canFinish" /\ ~bop[x].done /\ bop' = [bop EXCEPT ![x].done = TRUE, ![x].res = IF fin[x] THEN 1 ELSE 0]
             /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, pend, gone, nh, badh>>
InProg(x) == {pend[t].v : t \in {u \in Actors : pend[u].op = "wake" /\ pend[u].x = x}} \cup {-1 : t \in {u \in Actors : pend[u].op \in {"finish", "stop", "destroy"} /\ pend[u].x = x}}
BRet(x, op, r, now) ==
  /\ bop[x].op = op
  /\ \/ op = "sleep" /\ bop[x].done /\ r \in rs[x]
     \/ op = "sleepTm" /\ bop[x].done /\ (IF bop[x].res = 1 THEN r \in rs[x] ELSE r = -3 /\ now >= bop[x].dl)
     \/ op = "canFinish" /\ bop[x].done /\ r = bop[x].res
     \/ op = "cur" /\ r = x
     \/ op = "tls"
  /\ rs' = IF op \in {"sleep", "sleepTm"} /\ bop[x].res = 1 THEN [rs EXCEPT ![x] = (IF wk[x] THEN @ ELSE InProg(x)) \cup InProg(x) \cup {r}] ELSE rs
  /\ tls' = IF op = "tls" THEN [tls EXCEPT ![x] = @ + 1] ELSE tls
  /\ bop' = [bop EXCEPT ![x] = BIdle] /\ UNCHANGED <<ph, fin, wk, hk, pend, gone, nh, badh>>
\* -- operations on a thread object
\* a thread not started yet may ignore wake-ups
Sig(x) == \/ wk' = [wk EXCEPT ![x] = TRUE]
          \/ ph[x] \in {"idle", "claimed", "starting"} /\ UNCHANGED wk
Wake(t) == /\ At(t, "wake", 0) /\ Sig(pend[t].x) /\ Stg(t, 9, 0) /\ UNCHANGED <<ph, fin, rs, hk, tls, bop, gone, nh, badh>>
FinOps == {"finish", "stop", "destroy"}
Fin1(t) == /\ pend[t].op \in FinOps /\ pend[t].stg = 0 /\ fin' = [fin EXCEPT ![pend[t].x] = TRUE] /\ Stg(t, 1, 0) /\ UNCHANGED <<ph, wk, rs, hk, tls, bop, gone, nh, badh>>
Fin2(t) == /\ pend[t].op \in FinOps /\ pend[t].stg = 1 /\ Sig(pend[t].x) /\ Stg(t, IF pend[t].op = "finish" THEN 9 ELSE 2, 0)
           /\ UNCHANGED <<ph, fin, rs, hk, tls, bop, gone, nh, badh>>
Join(t) == /\ \/ At(t, "join", 0) \/ (pend[t].op \in {"stop", "destroy"} /\ pend[t].stg = 2)
           /\ Open(pend[t].x) /\ Stg(t, 9, 0) /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, bop, gone, nh, badh>>
Running(t) == /\ At(t, "running", 0) /\ Stg(t, 9, IF Open(pend[t].x) THEN 0 ELSE 1) /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, bop, gone, nh, badh>>
Finishing(t) == /\ At(t, "finishing", 0) /\ Stg(t, 9, IF fin[pend[t].x] THEN 1 ELSE 0) /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, bop, gone, nh, badh>>
\* -- an object bound to the calling thread
Attach(t) == /\ At(t, "attach", 0) /\ LET x == pend[t].x IN
                IF \E y \in Objs \ gone : y # x /\ ph[y] = "run" /\ pend[t].fail THEN Stg(t, 9, 0) /\ UNCHANGED <<ph, fin, hk>>
                ELSE /\ ph[x] = "idle" /\ ~pend[t].fail /\ ph' = [ph EXCEPT ![x] = "init"] /\ fin' = [fin EXCEPT ![x] = FALSE] /\ hk' = [hk EXCEPT ![x] = 0] /\ Stg(t, 1, 1)
             /\ UNCHANGED <<wk, rs, tls, bop, gone, nh, badh>>
Attach2(t) == /\ At(t, "attach", 1) /\ LET x == pend[t].x IN ph[x] = "init" /\ hk[x] = nh /\ ph' = [ph EXCEPT ![x] = "run"]
              /\ Stg(t, 9, 1) /\ UNCHANGED <<fin, wk, rs, hk, tls, bop, gone, nh, badh>>
Detach(t) == /\ At(t, "detach", 0) /\ LET x == pend[t].x IN ph[x] = "run" /\ ph' = [ph EXCEPT ![x] = "exit"] /\ Stg(t, 2, 0)
             /\ UNCHANGED <<fin, wk, rs, hk, tls, bop, gone, nh, badh>>
Detach2(t) == /\ At(t, "detach", 2) /\ Open(pend[t].x) /\ Stg(t, 9, 0) /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, bop, gone, nh, badh>>
Lin(t) == Start(t) \/ Start2(t) \/ StartFail(t) \/ Boot(t) \/ Ready(t) \/ Wake(t) \/ Fin1(t) \/ Fin2(t) \/ Join(t) \/ Running(t) \/ Finishing(t) \/ Attach(t) \/ Attach2(t) \/ Detach(t) \/ Detach2(t)
BLin(x) == Woken(x) \/ TimedOut(x) \/ CanFin(x) \/ Over(x)
Ret(t, op, r) ==
  /\ pend[t].op = op /\ pend[t].stg = 9 /\ r = pend[t].res
  /\ gone' = IF op \in {"destroy", "detach"} THEN gone \cup {pend[t].x} ELSE gone
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<ph, fin, wk, rs, hk, tls, bop, nh, badh>>
\* nothing can move: only sleepers nobody woke and those who wait for them
StuckOK == /\ \E x \in Objs : ph[x] = "run" /\ bop[x].op = "sleep" /\ ~bop[x].done /\ ~wk[x]
           /\ \A x \in Objs : ph[x] = "idle" \/ (ph[x] = "run" /\ bop[x].op = "sleep" /\ ~bop[x].done /\ ~wk[x])
           /\ \A t \in Actors : pend[t].op # "none" => /\ pend[t].op \in {"join", "stop", "destroy"} /\ pend[t].stg \in {0, 2}
                                                       /\ pend[t].op # "join" => pend[t].stg = 2
                                                       /\ ph[pend[t].x] = "run"
\* -- closed model: two objects, bodies do anything
Kinds == {"init", "exit", "exc"}
Next == \/ \E t \in Actors :
            \/ \E x \in Objs, op \in {"start", "join", "finish", "stop", "running", "finishing"} : Call(t, op, x, 0, FALSE)
            \/ \E x \in Objs : Call(t, "start", x, 0, TRUE)
            \/ \E x \in Objs : (\A u \in Actors \ {t} : pend[u].x # x \/ pend[u].op = "none") /\ Call(t, "destroy", x, 0, FALSE)
            \/ \E x \in Objs, v \in Reasons : Call(t, "wake", x, v, FALSE)
            \/ Start(t) \/ Start2(t) \/ StartFail(t) \/ Boot(t) \/ Ready(t) \/ Wake(t) \/ Fin1(t) \/ Fin2(t) \/ Join(t) \/ Running(t) \/ Finishing(t)
            \/ \E op \in {"start", "join", "finish", "stop", "running", "finishing", "wake", "destroy"}, r \in {-2, -1, 0, 1} : Ret(t, op, r)
        \/ \E x \in Objs :
            \/ Begin(x) \/ End(x, TRUE) \/ End(x, FALSE) \/ TlsDel(x) \/ Over(x)
            \/ \E op \in {"sleep", "sleepTm", "canFinish", "tls"} : (op = "tls" => tls[x] < MaxTls) /\ BCall(x, op, 0)
            \/ Woken(x) \/ TimedOut(x) \/ CanFin(x)
            \/ \E op \in {"sleep", "sleepTm", "canFinish", "tls"}, r \in Reasons \cup {-3, -1, 0, 1} : BRet(x, op, r, 0)
            \/ \E k \in Kinds, h \in 1..2 : Hook(x, k, h)
Spec == Init0 /\ nh \in {0, 2} /\ badh \in {0, 2} /\ [][Next]_tvars2
\* an object is destroyed only when its thread is over
DeadIsIdle == \A x \in gone : ph[x] = "idle"
\* nobody passes a join while the body can still run
JoinMeansOver == \A t \in Actors : (pend[t].op = "destroy" /\ pend[t].stg = 9) => ph[pend[t].x] \notin {"run", "exit", "exc"}
CleanIdle == \A x \in Objs : ph[x] \in {"idle", "claimed", "starting"} => tls[x] = 0 /\ hk[x] = 0 /\ bop[x].op = "none"
=============================================================================
