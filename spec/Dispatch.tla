----------------------------- MODULE Dispatch -----------------------------
(* Actions passed to the thread which runs the dispatcher, and promises      *)
(* resolved there when their time comes.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Acts, Kinds,
          Times, MaxClock  \* model only
VARIABLES
  q,      \* actions waiting
  sch,    \* scheduled promises
  due,    \* their times
  kind,   \* h handmade, l function, F function with a promise, v promise, S scheduled promise
  ac,     \* none, putting, queued, taken, run, ran, reject, over, gone
  by,     \* who puts it
  runner, \* thread which runs the dispatcher
  cur, stop, pend, dead, clock
dvars == <<q, sch, due, kind, ac, by, runner, cur, stop, pend, dead, clock>>
Idle == [op |-> "none", stg |-> 0, res |-> 0]
Init == /\ q = <<>> /\ sch = {} /\ due = [a \in Acts |-> 0] /\ kind = [a \in Acts |-> "h"] /\ ac = [a \in Acts |-> "none"] /\ by = [a \in Acts |-> 0] /\ runner = 0 /\ cur = 0 /\ stop = FALSE
        /\ pend = [t \in Threads |-> Idle] /\ dead = FALSE /\ clock = 0
Putting(t) == \E a \in Acts : ac[a] = "putting" /\ by[a] = t
Destroying == \E t \in Threads : pend[t].op = "destroy"
Call(t, op) == /\ pend[t].op = "none" /\ ~Putting(t) /\ ~dead /\ ~Destroying
               /\ op = "destroy" => \A u \in Threads \ {t} : pend[u].op = "none" \/ (pend[u].op = "run" /\ pend[u].stg > 0)
               /\ op = "destroy" => \A a \in Acts : by[a] \in {0, runner}
               /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.op = op]] /\ UNCHANGED <<q, sch, due, kind, ac, by, runner, cur, stop, dead, clock>>
Stg(t, k, r) == pend' = [pend EXCEPT ![t].stg = k, ![t].res = r]
At(t, op, k) == pend[t].op = op /\ pend[t].stg = k
Put(t, a, k, tm) == /\ ac[a] = "none" /\ ~dead /\ ac' = [ac EXCEPT ![a] = "putting"] /\ by' = [by EXCEPT ![a] = t] /\ kind' = [kind EXCEPT ![a] = k] /\ due' = [due EXCEPT ![a] = tm]
                    /\ UNCHANGED <<q, sch, runner, cur, stop, pend, dead, clock>>
Queue(a) == /\ ac[a] = "putting" /\ ac' = [ac EXCEPT ![a] = "queued"] /\ IF kind[a] = "S" THEN sch' = sch \cup {a} /\ UNCHANGED q ELSE q' = Append(q, a) /\ UNCHANGED sch
            /\ UNCHANGED <<due, kind, by, runner, cur, stop, pend, dead, clock>>
Puted(t, a) == /\ ac[a] \notin {"none", "putting"} /\ by[a] = t /\ by' = [by EXCEPT ![a] = 0] /\ UNCHANGED <<q, sch, due, kind, ac, runner, cur, stop, pend, dead, clock>>
Run(t) == /\ At(t, "run", 0) /\ IF runner = 0 THEN runner' = t /\ stop' = FALSE /\ Stg(t, 1, 1) ELSE Stg(t, 9, 0) /\ UNCHANGED <<runner, stop>>
          /\ UNCHANGED <<q, sch, due, kind, ac, by, cur, dead, clock>>
Free == runner # 0 /\ cur = 0
Take == /\ Free /\ q # <<>> /\ cur' = Head(q) /\ q' = Tail(q) /\ ac' = [ac EXCEPT ![Head(q)] = IF stop THEN "reject" ELSE "taken"]
        /\ UNCHANGED <<sch, due, kind, by, runner, stop, pend, dead, clock>>
\* scheduled promises come after actions and in order of time
Earliest(a) == a \in sch /\ \A b \in sch : due[a] <= due[b]
TakeSch(a, now) == /\ Free /\ q = <<>> /\ ~stop /\ Earliest(a) /\ now >= due[a] /\ cur' = a /\ sch' = sch \ {a} /\ ac' = [ac EXCEPT ![a] = "taken"]
                   /\ UNCHANGED <<q, due, kind, by, runner, stop, pend, dead, clock>>
\* what is seen: t is the thread
Begin(t, a) == t = runner /\ cur = a /\ ac[a] = "taken" /\ kind[a] \in {"h", "l", "F"} /\ ac' = [ac EXCEPT ![a] = "run"] /\ UNCHANGED <<q, sch, due, kind, by, runner, cur, stop, pend, dead, clock>>
End(t, a) == /\ t = runner /\ cur = a /\ ac[a] = "run" /\ ac' = [ac EXCEPT ![a] = IF kind[a] = "l" THEN "gone" ELSE "ran"] /\ cur' = IF kind[a] = "l" THEN 0 ELSE cur
             /\ UNCHANGED <<q, sch, due, kind, by, runner, stop, pend, dead, clock>>
Val(t, a) == /\ t = runner /\ cur = a /\ IF kind[a] = "F" THEN ac[a] = "ran" ELSE kind[a] \in {"v", "S"} /\ ac[a] = "taken"
             /\ ac' = [ac EXCEPT ![a] = "gone"] /\ cur' = 0 /\ UNCHANGED <<q, sch, due, kind, by, runner, stop, pend, dead, clock>>
Rej(t, a) == /\ kind[a] = "h" /\ t = runner /\ cur = a /\ ac[a] = "reject" /\ ac' = [ac EXCEPT ![a] = "over"] /\ UNCHANGED <<q, sch, due, kind, by, runner, cur, stop, pend, dead, clock>>
Exc(t, a) == /\ kind[a] \in {"F", "v", "S"} /\ ac' = [ac EXCEPT ![a] = "gone"]
             /\ \/ t = runner /\ cur = a /\ ac[a] = "reject" /\ cur' = 0
                \/ pend[t].op = "destroy" /\ runner = 0 /\ ac[a] = "queued" /\ UNCHANGED cur
             /\ UNCHANGED <<q, sch, due, kind, by, runner, stop, pend, dead, clock>>
Del(t, a) == /\ kind[a] = "h" /\ ac' = [ac EXCEPT ![a] = "gone"]
             /\ \/ t = runner /\ cur = a /\ ac[a] \in {"ran", "over"} /\ cur' = 0
                \/ pend[t].op = "destroy" /\ runner = 0 /\ ac[a] = "queued" /\ UNCHANGED cur
             /\ UNCHANGED <<q, sch, due, kind, by, runner, stop, pend, dead, clock>>
\* a rejected function has no way to tell
RejL == cur # 0 /\ kind[cur] = "l" /\ ac[cur] = "reject" /\ ac' = [ac EXCEPT ![cur] = "gone"] /\ cur' = 0 /\ UNCHANGED <<q, sch, due, kind, by, runner, stop, pend, dead, clock>>
Quit(t) == At(t, "quit", 0) /\ stop' = (stop \/ runner # 0) /\ Stg(t, 9, 1) /\ UNCHANGED <<q, sch, due, kind, ac, by, runner, cur, dead, clock>>
QuitIn(a) == cur = a /\ ac[a] = "run" /\ stop' = TRUE /\ UNCHANGED <<q, sch, due, kind, ac, by, runner, cur, pend, dead, clock>>
Exit(t) == /\ At(t, "run", 1) /\ runner = t /\ stop /\ cur = 0 /\ q = <<>> /\ runner' = 0 /\ Stg(t, 9, 1) /\ UNCHANGED <<q, sch, due, kind, ac, by, cur, stop, dead, clock>>
Join(t) == At(t, "join", 0) /\ runner = 0 /\ Stg(t, 9, 1) /\ UNCHANGED <<q, sch, due, kind, ac, by, runner, cur, stop, dead, clock>>
Destroy(t) == /\ At(t, "destroy", 0) /\ runner = 0 /\ (\A a \in Acts : ac[a] = "queued" => kind[a] = "l") /\ Stg(t, 9, 1) /\ q' = <<>> /\ UNCHANGED <<sch, due, kind, ac, by, runner, cur, stop, dead, clock>>
Lin(t) == Run(t) \/ Quit(t) \/ Exit(t) \/ Join(t) \/ Destroy(t)
Ret(t, op, r) == /\ pend[t].op = op /\ (op # "inf" => pend[t].stg = 9) /\ r = (IF op = "inf" THEN 1 ELSE pend[t].res) /\ pend' = [pend EXCEPT ![t] = Idle] /\ dead' = (dead \/ op = "destroy")
                 /\ UNCHANGED <<q, sch, due, kind, ac, by, runner, cur, stop, clock>>
Calm == /\ runner # 0 => q = <<>> /\ ~stop /\ cur = 0
        /\ \A t \in Threads : ~Putting(t) /\ (pend[t].op # "none" => pend[t].stg # 9 /\ runner # 0 /\ pend[t].op \in {"run", "join", "destroy"} /\ (pend[t].op = "run" => runner = t))
Quiet(now) == Calm /\ (runner # 0 => \A a \in sch : due[a] > now) /\ UNCHANGED dvars
StuckOK == Calm /\ (runner # 0 => sch = {})
\* -- closed model
Tick == clock < MaxClock /\ clock' = clock + 1 /\ UNCHANGED <<q, sch, due, kind, ac, by, runner, cur, stop, pend, dead>>
Next == \/ \E t \in Threads : \/ \E op \in {"run", "quit", "join", "destroy"} : Call(t, op) \/ (\E r \in {0, 1} : Ret(t, op, r))
                              \/ \E a \in Acts : \/ \E k \in Kinds : IF k = "S" THEN \E tm \in Times : pend[t].op \in {"none"} /\ ~Putting(t) /\ ~Destroying /\ Put(t, a, k, tm)
                                                                     ELSE (pend[t].op = "none" \/ (t = runner /\ cur # 0 /\ ac[cur] = "run")) /\ ~Putting(t) /\ ~Destroying /\ Put(t, a, k, 0)
                                                 \/ Puted(t, a) \/ Begin(t, a) \/ (~Putting(t) /\ End(t, a)) \/ Val(t, a) \/ Rej(t, a) \/ Exc(t, a) \/ Del(t, a)
                              \/ Run(t) \/ Quit(t) \/ Exit(t) \/ Join(t) \/ Destroy(t)
        \/ Take \/ RejL \/ Tick
        \/ \E a \in Acts : Queue(a) \/ TakeSch(a, clock) \/ QuitIn(a)
        \/ Quiet(clock)
Spec == Init /\ [][Next]_dvars
OneRuns == \A a \in Acts : ac[a] \in {"taken", "run", "ran", "reject", "over"} => runner # 0 /\ cur = a
Ended == dead => \A a \in Acts : ac[a] \in {"none", "gone", "queued"} /\ (ac[a] = "queued" => kind[a] = "l")
InTime == \A a \in Acts : kind[a] = "S" /\ ac[a] = "taken" => clock >= due[a]
Order == [][cur' # cur /\ cur' # 0 => IF kind[cur'] = "S" THEN q = <<>> /\ Earliest(cur') ELSE cur' = Head(q)]_dvars
OnceOnly == [][\A a \in Acts : ac[a] = "gone" => ac'[a] = "gone"]_dvars
=============================================================================
