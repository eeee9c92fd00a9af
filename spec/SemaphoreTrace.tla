--------------------------- MODULE SemaphoreTrace ---------------------------
EXTENDS Semaphore, TraceBase
TInit == Init /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
TStart == /\ More /\ E.e = "init" /\ cnt' = E.n /\ UNCHANGED <<pend, aslot, queued, before, fin>> /\ Step
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op, D("dl", 0)) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, E.res, D("now", 0)) /\ Step
TBlock == /\ More /\ E.e = "Block" /\ Block(E.t) /\ Step
TFin == /\ More /\ E.e = "fin" /\ Finish(E.u) /\ Step
TStuck == /\ More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED svars /\ Step
TFinal == /\ More /\ E.e = "final" /\ cnt = E.n /\ (\A t \in Threads : pend[t].op = "none") /\ UNCHANGED svars /\ Step
TLin == /\ More /\ \E t \in Threads : Lin(t) /\ Silent
TNext == TStart \/ TCall \/ TRet \/ TBlock \/ TFin \/ TStuck \/ TFinal \/ TLin
TSpec == TInit /\ [][TNext]_<<svars, tvars>>
=============================================================================
