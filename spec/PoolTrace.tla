------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, TraceBase
TInit == Init /\ TBInit
TStart == /\ More /\ E.e \in {"start", "stop"} /\ (E.e = "stop" => \A t \in Threads : pend[t] = "none") /\ UNCHANGED pvars /\ Step
TCall == /\ More /\ E.e = "call" /\ Step
         /\ IF E.op = "dealloc" THEN E.whole /\ CallPut(E.t, E.o) ELSE Call(E.t, E.op)
\* big enough and aligned
TRet == /\ More /\ E.e = "ret" /\ Step
        /\ IF E.op = "alloc" THEN E.fits /\ Got(E.t, E.res) ELSE Ret(E.t, E.op)
TNext == TStart \/ TCall \/ TRet
TSpec == TInit /\ [][TNext]_<<pvars, tvars>>
=============================================================================
