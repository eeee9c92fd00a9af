-------------------------- MODULE QueueExecTrace --------------------------
EXTENDS QueueExec, TraceBase
TInit == Init /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
TCall == More /\ E.e = "call" /\ Call(E.t, E.op, D("a", 0), D("dl", 0)) /\ Step
TRet == More /\ E.e = "ret" /\ Ret(E.t, E.op, E.r, E.now) /\ Step
TBegin == More /\ E.e = "begin" /\ Begin(E.t, E.a) /\ Step
TEnd == More /\ E.e = "end" /\ (\E t \in Threads : End(t, E.a, E.exc # 0)) /\ Step
TNested == More /\ E.e = "nested" /\ ac[E.a] # "none" /\ UNCHANGED qvars /\ Step
TQuiet == More /\ E.e = "quiet" /\ Quiet(E.r) /\ Step
TStuck == More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED qvars /\ Step
TLin == More /\ (\E t \in Threads : Lin(t)) /\ Silent
\* put by an action which is running
TNest == More /\ (\E t \in Threads : srv[t] = "run" /\ cur[t] + 4 \in Acts /\ (\E i \in l..Len(Ev) : Ev[i].e = "nested" /\ Ev[i].a = cur[t] + 4) /\ Nested(cur[t] + 4)) /\ Silent
TNext == TCall \/ TRet \/ TBegin \/ TEnd \/ TNested \/ TQuiet \/ TStuck \/ TLin \/ TNest
TSpec == TInit /\ [][TNext]_<<qvars, tvars>>
=============================================================================
