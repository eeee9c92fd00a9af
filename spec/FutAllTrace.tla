--------------------------- MODULE FutAllTrace ---------------------------
EXTENDS FutAll, TraceBase
TInit == Init /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
TCall == More /\ E.e = "call" /\ Call(E.t, E.op, D("i", 0), D("v", 0)) /\ Step
TRet == More /\ E.e = "ret" /\ Ret(E.t, E.op, D("a", 0), D("b", 0)) /\ Step
TBlock == More /\ E.e = "Block" /\ UNCHANGED fvars /\ Step
TStuck == More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED fvars /\ Step
TLin == More /\ (\E t \in Threads : Lin(t)) /\ Silent
TNext == TCall \/ TRet \/ TBlock \/ TStuck \/ TLin
TSpec == TInit /\ [][TNext]_<<fvars, tvars>>
=============================================================================
