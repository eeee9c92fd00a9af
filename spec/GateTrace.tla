----------------------------- MODULE GateTrace -----------------------------
EXTENDS Gate, TraceBase
TInit == Init /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
TStart == /\ More /\ E.e = "init" /\ open' = E.open /\ UNCHANGED <<pend, aslot, parked, may, must>> /\ Step
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op, D("dl", 0)) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res, D("now", 0)) /\ Step
TBlock == /\ More /\ E.e = "Block" /\ Block(E.t) /\ Step
TStuck == /\ More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED gvars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t) /\ Silent
TNext == TStart \/ TCall \/ TRet \/ TBlock \/ TStuck \/ TLin
TSpec == TInit /\ [][TNext]_<<gvars, tvars>>
=============================================================================
