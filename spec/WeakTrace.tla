----------------------------- MODULE WeakTrace -----------------------------
EXTENDS Weak, TraceBase
TInit == Init /\ TBInit
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res) /\ Step
\* being blocked is only of interest at the end
TBlock == /\ More /\ E.e = "Block" /\ UNCHANGED wvars /\ Step
TEmpty == /\ More /\ E.e = "empty" /\ ~E.res /\ UNCHANGED wvars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t) /\ Silent
TNext == TCall \/ TRet \/ TBlock \/ TEmpty \/ TLin
TSpec == TInit /\ [][TNext]_<<wvars, tvars>>
=============================================================================
