--------------------------- MODULE ThreadTrace ---------------------------
EXTENDS Thread, TraceBase
TInit == Init /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
Keep == UNCHANGED <<ph, fin, wk, rs, hk, tls, bop, pend, gone>>
TStart == More /\ E.e = "init" /\ nh' = E.hooks /\ badh' = E.bad /\ Keep /\ Step
\* object 11: attaching a second object to a thread which already has one
TCall == More /\ E.e = "call" /\ Call(E.t, E.op, E.x, D("v", 0), "fail" \in DOMAIN E \/ E.x = 11) /\ Step
TRet == More /\ E.e = "ret" /\ Ret(E.t, E.op, D("r", 0)) /\ Step
TBegin == More /\ E.e = "begin" /\ Begin(E.x) /\ Step
TEnd == More /\ E.e = "end" /\ End(E.x, E.exc # 0) /\ Step
TTls == More /\ E.e = "tlsdel" /\ TlsDel(E.x) /\ Step
THook == More /\ E.e = "hook" /\ Hook(E.x, E.k, E.h) /\ Step
TBCall == More /\ E.e = "bcall" /\ BCall(E.x, E.op, D("dl", 0)) /\ Step
TBRet == More /\ E.e = "bret" /\ BRet(E.x, E.op, D("r", 0), D("now", 0)) /\ Step
TStuck == More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED tvars2 /\ Step
TLin == More /\ ((\E t \in Actors : Lin(t)) \/ (\E x \in Objs : BLin(x))) /\ Silent
TNext == TStart \/ TCall \/ TRet \/ TBegin \/ TEnd \/ TTls \/ THook \/ TBCall \/ TBRet \/ TStuck \/ TLin
TSpec == TInit /\ [][TNext]_<<tvars2, tvars>>
=============================================================================
