----------------------------- MODULE OnceTrace -----------------------------
EXTENDS Once, TraceBase
TInit == Init /\ TBInit
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.o) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.res) /\ Step
TCtor == /\ More /\ E.e = "ctor" /\ Ctor(E.t, E.o) /\ Step
TFail == /\ More /\ E.e = "failed" /\ Failed(E.t, E.o) /\ Step
TDtor == /\ More /\ E.e = "dtor" /\ Dtor(E.o) /\ Step
TEnd == /\ More /\ E.e = "end" /\ (\A o \in Objs : st[o] # "ready") /\ UNCHANGED ovars /\ Step
TBuilt == /\ More /\ \E t \in Threads : Built(t) /\ Silent
TNext == TCall \/ TRet \/ TCtor \/ TFail \/ TDtor \/ TEnd \/ TBuilt
TSpec == TInit /\ [][TNext]_<<ovars, tvars>>
=============================================================================
