--------------------------- MODULE PromiseTrace ---------------------------
EXTENDS Promise, TraceBase
TInit == Init /\ nprom = 0 /\ TBInit
D(f, d) == IF f \in DOMAIN E THEN E[f] ELSE d
\* an observer behind a chain of transformations sees the value changed by them
Un(o, v) == IF v > 0 /\ "map" \in DOMAIN E THEN v - E.map ELSE v
TStart == /\ More /\ E.e = "init" /\ nprom' = E.n /\ UNCHANGED <<res, settled, st, bef, pend, parked, mayc>> /\ Step
TCall == /\ More /\ E.e = "call" /\ Call(E.t, E.op, D("v", 0), D("o", 0), D("dl", 0), D("now", 0)) /\ Step
TRet == /\ More /\ E.e = "ret" /\ Ret(E.t, E.op, D("r", 0), D("now", 0)) /\ Step
TTold == /\ More /\ E.e = "got" /\ Told(E.t, E.o, Un(E.o, E.v)) /\ Step
TBlock == /\ More /\ E.e = "Block" /\ Block(E.t) /\ Step
TStuck == /\ More /\ E.e = "Stuck" /\ StuckOK /\ UNCHANGED pvars /\ Step
TLin == /\ More /\ \E t \in Threads : (Lin(t) \/ \E o \in Obs : Take(t, o)) /\ Silent
TNext == TStart \/ TCall \/ TRet \/ TTold \/ TBlock \/ TStuck \/ TLin
TSpec == TInit /\ [][TNext]_<<pvars, tvars>>
=============================================================================
