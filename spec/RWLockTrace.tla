---------------------------- MODULE RWLockTrace ----------------------------
EXTENDS RWLock, TraceBase
TInit == Init /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op, D("lv", 0)) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res) /\ Step
TBlock == /\ More /\ E.e = "Block" /\ Block(E.t) /\ Step
TStuck == /\ More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED rvars /\ Step
TFinal == /\ More /\ E.e = "final" /\ users = 0 /\ (\A t \in Threads : pend[t].op = "none") /\ UNCHANGED rvars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t) /\ Silent
TNext == TCall \/ TRet \/ TBlock \/ TStuck \/ TFinal \/ TLin
TSpec == TInit /\ [][TNext]_<<rvars, tvars>>
=============================================================================
