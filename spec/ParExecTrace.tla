-------------------------- MODULE ParExecTrace --------------------------
EXTENDS ParExec, TraceBase
VARIABLES wait, idle
xvars == <<pvars, wait, idle>>
TInit == Init0 /\ mx = 1 /\ hi = 1 /\ wait = 0 /\ idle = 0 /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
TStart == More /\ E.e = "init" /\ mx' = E.max /\ hi' = E.max /\ wait' = E.wait /\ idle' = E.idle /\ UNCHANGED <<ac, sent, pend, dead>> /\ Step
TCall == /\ More /\ E.e = "call"
         /\ Call(E.t, E.op, IF E.op = "setmax" THEN E.k ELSE D("a", 0), IF E.op = "execute" THEN E.now + wait ELSE IF D("tm", 0) > 0 THEN E.now + E.tm ELSE 0)
         /\ UNCHANGED <<wait, idle>> /\ Step
TRet == More /\ E.e = "ret" /\ Ret(E.t, E.op, E.r, E.now) /\ (E.op \in {"stop", "destroy"} /\ E.r = 1 => E.live = 0) /\ (E.op = "setmax" => E.r >= 1) /\ UNCHANGED <<wait, idle>> /\ Step
TBegin == More /\ E.e = "begin" /\ Begin(E.a) /\ UNCHANGED <<wait, idle>> /\ Step
TEnd == More /\ E.e = "end" /\ End(E.a) /\ UNCHANGED <<wait, idle>> /\ Step
TQuiet == More /\ E.e = "quiet" /\ Quiet(E.c, E.i, idle > 1000) /\ E.live = E.c /\ (E.r # 0) = (E.i < E.c) /\ UNCHANGED <<wait, idle>> /\ Step
TLin == More /\ (\E t \in Actors : Lin(t)) /\ UNCHANGED <<wait, idle>> /\ Silent
TNext == TStart \/ TCall \/ TRet \/ TBegin \/ TEnd \/ TQuiet \/ TLin
TSpec == TInit /\ [][TNext]_<<xvars, tvars>>
=============================================================================
