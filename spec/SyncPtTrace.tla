---------------------------- MODULE SyncPtTrace ----------------------------
EXTENDS SyncPt, TraceBase
TInit == Init /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op, D("s", 0), D("v", 0), D("dl", 0)) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res, D("v", 0), D("now", 0)) /\ Step
TBlock == /\ More /\ E.e = "Block" /\ UNCHANGED yvars /\ Step
TStuck == /\ More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED yvars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t, Cfg.stack) /\ Silent
TNext == TCall \/ TRet \/ TBlock \/ TStuck \/ TLin
TSpec == TInit /\ [][TNext]_<<yvars, tvars>>
=============================================================================
